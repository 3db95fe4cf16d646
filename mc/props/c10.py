"""C10 refinement of estimates."""
import functools

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Skip, Tree, require
from .c08 import refined

ASSUMPTIONS = ['scenarios in which two refined points tie for the maximum only get the inequality checks']


class IntGrid(SP.Grid):
    def make(self):
        from doatools.estimation import grid as E
        ax = tuple(np.array(a).astype(int) for a in self.axes)
        if self.kind == 'ff1d':
            return E.FarField1DSearchGrid(unit=self.unit, axes=ax)
        if self.kind == 'ff2d':
            return E.FarField2DSearchGrid(unit=self.unit, axes=ax)
        return E.NearField2DSearchGrid(axes=ax)


@functools.lru_cache(None)
def grids(thorough):
    out = list(SP.grids(thorough))
    out += [IntGrid('int-deg', 'ff1d', 'deg', [[-85, -60, -41, -30, -22, -7, 0, 12, 19, 33, 58, 61, 87]]),
            IntGrid('int-nf', 'nf2d', 'm', [[-3, -1, 0, 2, 3], [1, 2, 3, 5]]),
            SP.Grid('to-the-end', 'ff1d', 'sin', [[-1.0, -0.6, -0.1, 0.35, 0.8, 1.0]]),
            SP.Grid('to-the-end-2d', 'ff2d', 'deg', [[-180.0, -70.0, 35.0, 180.0], [-90.0, -20.0, 55.0, 90.0]]),
            SP.Grid('one-row', 'nf2d', 'm', [[0.5], [1.0, 2.0, 4.5]])]
    return out


def gen(c):
    s = c.choose('array', SP.setups(c.thorough) if c.thorough else [SP.setups()[i] for i in (0, 1, 3, 5, 6, 7)])
    g = c.choose('grid', [g for g in grids(c.thorough) if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    r = c.choose('R', ['one', 'two', 'three', 'pd'])
    k = c.choose('k', [1, 2, 3])
    d, n = c.choose('density,iters', [(None, None), (1, 3), (2, 1), (2, 4), (3, 2), (10, 1), (4, 0)] + ([(7, 3), (20, 2)] if c.thorough else []))
    pk = c.choose('finder', ['default', 'ends'])
    return s, g, e, r, k, d, n, pk


def ends(x):
    """Reports the corners/ends of the grid and one interior point."""
    if x.ndim == 1:
        return (np.unique([0, len(x) // 2, len(x) - 1]),)
    c = sorted({(0, 0), (x.shape[0] - 1, x.shape[1] - 1), (x.shape[0] - 1, 0), (x.shape[0] // 2, x.shape[1] // 2)})
    return tuple(np.array(a) for a in zip(*c))


def gen_large(c):
    s = c.choose('array', SP.large_setups())
    g = c.choose('grid', [g for g in SP.large_grids() if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    k = c.choose('k', [k for k in (1, 4, 6, 9) if k < s.size])
    d, n = c.choose('density,iters', [(10, 3), (2, 5), (50, 1)] if g.kind == 'ff1d' else [(5, 2)])
    return s, g, e, 'large', k, d, n, c.choose('finder', ['default', 'ends'] if k <= 4 else ['default'])


def gen_layout(c):
    s = c.choose('array', [SP.setups()[i] for i in (0, 3, 6)])
    g = c.choose('grid', [g for g in grids(c.thorough) if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    r, lay = c.choose('R,layout', [(r, None) for r in ('diag', 'int', 'noise-free2', 'near-real')] + [(r, x) for r in ('two-corr', 'int') for x in alpha.COV_LAYOUTS])
    return s, g, e, r, c.choose('k', [1, 2]), 2, 3, 'ends', lay


def gen_unit(c):
    """The same arrays in other units of length."""
    f = c.choose('unit of length', SP.UNITS)
    s = c.choose('array', SP.setups_at(f))
    g = c.choose('grid', [g for g in SP.grids_at(f) if g.kind in s.kinds])
    d, n = c.choose('density,iters', [(None, None), (2, 3)])
    return s, g, c.choose('estimator', SP.EST), c.choose('R', ['two', 'pd']), 2, d, n, c.choose('finder', ['default', 'ends'])


def run(sc, rec):
    s, g, e, r, k, d, n, pk = sc[:8]
    if k >= s.size:
        raise Skip()
    wl = s.unit
    grid = g.make()
    kw = {} if pk == 'default' else {'peak_finder': ends}
    est = SP.estimator_class(e)(s.make(), wl, grid, **kw)
    R = SP.cov(s, r, wl, g) if r != 'large' else SP.large_cov(s, g, wl, min(s.size - 1, k + 1), 0.03)
    if len(sc) > 8:
        R = alpha.relayout(R, sc[8])
        lam = np.linalg.eigvalsh(np.array(R))
        if e in ('MUSIC', 'MinNorm') and lam[s.size - k] - lam[s.size - k - 1] < 1e-3 * lam[-1] or e == 'MVDR' and lam[0] < 1e-6:
            raise Skip()
        if e == 'MinNorm' and ref.noise_projector(np.array(R), k)[0][0, 0].real < 1e-3:
            raise Skip()
    ok0, e0, sp0 = est.estimate(R, k, return_spectrum=True)
    rec.step()
    opt = {}
    if d is not None:
        opt = {'refinement_density': d, 'refinement_iters': n}
    ret = est.estimate(R, k, return_spectrum=True, refine_estimates=True, **opt)
    rec.step()
    require(bool(ret[0]) == bool(ok0), 'resolved changed by refinement')
    require(np.array_equal(ret[2], sp0), 'returned spectrum changed by refinement')
    if not ok0:
        require(ret[1] is None or len(ret[1]) == 0, 'estimates although unresolved')
        rec.state('unresolved', repr(sc))
        return
    e1 = ret[1]
    require(type(e1) is type(e0) and e1.units == e0.units and e1.size == e0.size == k, 'kind, unit or number changed')
    before = np.array(e0.locations, copy=True)
    flat = []
    pts = np.array(g.points, float).reshape(len(g.points), -1)
    for v in before.reshape(k, -1):
        flat.append(int(np.argmin(np.sum((pts - v) ** 2, axis=1))))
    dens, iters = (10, 3) if d is None else (d, n)

    def value(points):
        A = s.steering(g.kind, points, g.unit, wl, 'known')
        v, rcp = SP.spectrum(e, A, R, k)
        return 1.0 / v if rcp else v
    for j, f in enumerate(flat):
        coord = np.unravel_index(f, g.shape)
        axes = g.axes
        got = np.asarray(e1.locations[j], float).ravel()
        # one original interval
        for a, cidx, x in zip(axes, coord, got):
            lo, hi = a[max(0, cidx - 1)], a[min(len(a) - 1, cidx + 1)]
            require(lo - 1e-9 <= x <= hi + 1e-9, 'estimate {} left its interval [{}, {}]', x, lo, hi)
        loc = got[0] if len(axes) == 1 else got
        v0 = value([before[j]])[0]
        v1 = value([loc])[0]
        require(v1 >= v0 * (1 - 1e-7), 'spectrum value decreased from {} to {}', v0, v1)
        # reference refinement
        tie = False
        cur = [int(x) for x in coord]
        want = before[j]            # no iterations: as found
        for it in range(iters):
            axes = [refined(a, x, dens, 1) for a, x in zip(axes, cur)]
            p = list(axes[0]) if len(axes) == 1 else [[x, y] for x in axes[0] for y in axes[1]]
            v = value(p)
            i = int(np.argmax(v))
            if len(v) > 1:
                second = np.partition(v, -2)[-2]
                if second > v[i] * (1 - 1e-7):
                    tie = True
                    break
            cur = list(np.unravel_index(i, tuple(len(a) for a in axes)))
            want = p[i]
        if not tie:
            u = s.unit if g.kind == 'nf2d' else 1.0
            require(ref.close(got / u, np.asarray(want, float).ravel() / u, 1e-8), 'refined estimate {} expected {}', got, want)
            rec.count('exact')
        else:
            rec.count('ties')
    # refinement leaves the grid and later estimates alone
    for a, b in zip(grid.axes, g.axes):
        require(np.array_equal(np.asarray(a, float), np.array(b)), 'grid axes changed')
    require(ref.close(np.asarray(grid.source_placement.locations, float).reshape(len(pts), -1), pts, 1e-12), 'grid points changed')
    require(np.array_equal(e0.locations, before), 'earlier estimates changed')
    ok2, e2, sp2 = est.estimate(R, k, return_spectrum=True)
    require(ok2 == ok0 and np.array_equal(e2.locations, before) and np.array_equal(sp2, sp0), 'later unrefined estimates differ')
    rec.step(2)
    rec.state(s.name, g.name, e, r, k, d, n, pk, sc[8:], e1.locations)


HARNESSES = [Tree('refine', gen, run), Tree('large', gen_large, run), Tree('layouts', gen_layout, run), Tree('units of length', gen_unit, run)]
