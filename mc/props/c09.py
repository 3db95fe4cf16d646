"""C09 spectra and peaks of the spectrum-based estimators."""
import functools
import itertools

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['ties between spectrum values at the selection boundary are outside the quantifier',
               'the covariance matrix is Hermitian']


def check_estimates(est, grid, flat):
    pts = grid.points
    require(type(est) is grid.placement_class() and tuple(est.units) == grid.units, 'kind or unit of the estimates')
    want = np.array([pts[i] for i in flat], dtype=float)
    require(est.size == len(flat) and est.locations.shape == want.shape and ref.close(est.locations, want, 1e-12),
            'estimates {} expected grid points {}', est.locations.tolist(), want.tolist())


def empty(est):
    return est is None or len(est) == 0


# --------------------------------------------------------- spectrum + peaks
def gen(c):
    s = c.choose('array', SP.setups(c.thorough))
    g = c.choose('grid', [g for g in SP.grids(c.thorough) if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    wl = c.choose('wavelength', [1.0, 0.8])
    r = c.choose('R', ['one', 'two', 'two-corr', 'three', 'pd', 'realpd', 'ill', 'tiny', 'huge', 'near-real', 'near-white'] + (['indef'] if e in ('MUSIC', 'MinNorm', 'Bartlett') else []))
    k = c.choose('k', list(range(1, s.size if e in ('MUSIC', 'MinNorm') else s.size + 2)))
    return s, g, e, wl, r, k, c.choose('caching', [True, False, None])


STRUCTURED = ['diag', 'int', 'noise-free', 'noise-free2']


def gen_layout(c):
    s = c.choose('array', SP.setups(c.thorough))
    g = c.choose('grid', [g for g in SP.grids(c.thorough) if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    r, lay = c.choose('R,layout', [(r, None) for r in STRUCTURED] + [(r, x) for r in ('two-corr', 'realpd', 'int') for x in alpha.COV_LAYOUTS])
    return s, g, e, c.choose('wavelength', [1, 0.8]), r, c.choose('k', [1, 2, 3]), None, lay


def gen_unit(c):
    """The same arrays in other units of length."""
    f = c.choose('unit of length', SP.UNITS)
    s = c.choose('array', SP.setups_at(f))
    g = c.choose('grid', [g for g in SP.grids_at(f) if g.kind in s.kinds])
    return s, g, c.choose('estimator', SP.EST), f, c.choose('R', ['one', 'two-corr', 'pd']), c.choose('k', [1, 2]), None


def run(sc, rec):
    s, g, e, wl, r, k, caching = sc[:7]
    arr, grid = s.make(), g.make()
    kw = {} if caching is None else {'enable_caching': caching}
    est = SP.estimator_class(e)(arr, wl, grid, **kw)
    R = SP.cov(s, r, wl, g)
    if len(sc) > 7:
        R = alpha.relayout(R, sc[7])
        lam = np.linalg.eigvalsh(np.array(R))
        if e in ('MUSIC', 'MinNorm') and (k >= s.size or lam[s.size - k] - lam[s.size - k - 1] < 1e-3 * lam[-1]) or e == 'MVDR' and lam[0] < 1e-6:
            raise Skip()
        if e == 'MinNorm' and ref.noise_projector(np.array(R), k)[0][0, 0].real < 1e-3:
            raise Skip()
    R0 = R.copy()
    ret = est.estimate(R, k, return_spectrum=True)
    require(len(ret) == 3, 'return value of length {}', len(ret))
    resolved, locs, sp = ret
    require(sp.shape == g.shape, 'spectrum of shape {} expected {}', sp.shape, g.shape)
    SP.compare_spectrum(e, sp, SP.atoms(s, g, wl), R, k, require)
    pk = SP.peaks(sp)
    rec.step()
    if pk is not None:
        require(bool(resolved) == (len(pk) >= k), 'resolved={} with {} peaks and k={}', resolved, len(pk), k)
        if resolved:
            flat = SP.top_k(sp, pk, k)
            if flat is not None:
                check_estimates(locs, g, flat)
                rec.count('peaks_checked')
        else:
            require(empty(locs), 'unresolved but estimates {}', locs)
            rec.count('unresolved')
    ret2 = est.estimate(R, k)
    require(len(ret2) == 2, 'return value of length {}', len(ret2))
    require(ret2[0] == resolved and (empty(locs) and empty(ret2[1]) or np.array_equal(ret2[1].locations, locs.locations)),
            'result depends on return_spectrum')
    rec.step()
    require(np.array_equal(R, R0), 'covariance modified')
    rec.state(s.name, g.name, e, wl, r, sc[7:], k, bool(resolved), None if empty(locs) else locs.locations)


# ------------------------------------------------------- fine grids, many sources
def gen_large(c):
    s = c.choose('array', SP.large_setups())
    g = c.choose('grid', [g for g in SP.large_grids() if g.kind in s.kinds])
    e = c.choose('estimator', SP.EST)
    k = c.choose('k', [k for k in (1, 2, 3, 4, 5, 7, 9, 12) if k < s.size])
    return s, g, e, k, c.choose('noise', [0.0, 0.05]), c.choose('rank', [0, 2]), c.choose('scale', [1.0, 1e-6])


def run_large(sc, rec):
    s, g, e, k, noise, extra, scale = sc
    n = max(1, min(s.size - 1, k + extra))
    R = scale * SP.large_cov(s, g, 1.0, n, noise)
    lam = np.linalg.eigvalsh(R)
    if e in ('MUSIC', 'MinNorm') and lam[s.size - k] - lam[s.size - k - 1] < 1e-3 * lam[-1]:
        raise Skip()
    R0 = R.copy()
    est = SP.estimator_class(e)(s.make(), 1.0, g.make())
    ok, locs, sp = est.estimate(R, k, return_spectrum=True)
    require(sp.shape == g.shape, 'spectrum of shape {}', sp.shape)
    SP.compare_spectrum(e, sp, SP.atoms(s, g, 1.0), R, k, require)
    pk = SP.peaks(sp)
    rec.step()
    if pk is not None:
        require(bool(ok) == (len(pk) >= k), 'resolved={} with {} peaks and k={}', ok, len(pk), k)
        flat = SP.top_k(sp, pk, k) if ok else None
        if flat is not None:
            check_estimates(locs, g, flat)
            rec.count('peaks_checked')
        elif not ok:
            require(empty(locs), 'unresolved but estimates {}', locs)
    require(np.array_equal(R, R0), 'covariance modified')
    rec.state(*sc)


# ------------------------------------------------ every possible peak set
SMALL = {'1d': SP.Grid('s1', 'ff1d', 'deg', [[-50, -31, -4, 11, 37, 64]]),
         '2d': SP.Grid('s2', 'ff2d', 'rad', [[-2.0, 0.3, 1.9], [0.2, 0.9]]),
         'nf': SP.Grid('s3', 'nf2d', 'm', [[-1.5, 2.0], [1.0, 2.0, 4.0]])}
BIG = {'1d': SP.Grid('b1', 'ff1d', 'rad', [[-1.3, -1.0, -0.62, -0.2, -0.05, 0.21, 0.5, 0.77, 1.1]]),
       '2d': SP.Grid('b2', 'ff2d', 'deg', [[-120.0, -20.0, 75.0], [12.0, 40.0, 71.0]]),
       'nf': SP.Grid('b3', 'nf2d', 'm', [[-1.5, 0.4, 2.0], [1.0, 2.0, 4.0]])}


def gen_pk(c):
    e = c.choose('estimator', SP.EST)
    which = c.choose('grid', ['1d', '2d', 'nf'])
    g = (BIG if c.thorough else SMALL)[which]
    n = len(g.points)
    mask = c.choose('peaks', list(range(2 ** n)))
    k = c.choose('k', [1, 2, 3, 4] if c.thorough else [1, 2, 3])
    return e, g, mask, k, c.choose('spectrum', [True, False])


def run_pk(sc, rec):
    e, g, mask, k, ret_sp = sc
    s = SP.setups()[3]            # 5-element planar array
    n = len(g.points)
    flat = [i for i in range(n) if mask >> i & 1]
    idx = np.unravel_index(np.array(flat, dtype=int), g.shape)
    seen = []

    def finder(x):
        seen.append(np.array(x, copy=True))
        return tuple(np.array(a, dtype=int) for a in idx)
    est = SP.estimator_class(e)(s.make(), 1.0, g.make(), peak_finder=finder)
    R = SP.cov(s, 'two', 1.0, g)
    ret = est.estimate(R, k, return_spectrum=ret_sp)
    require(len(ret) == (3 if ret_sp else 2), 'return value of length {}', len(ret))
    require(len(seen) == 1 and seen[0].shape == g.shape, 'peak finder called {} times', len(seen))
    SP.compare_spectrum(e, seen[0], SP.atoms(s, g, 1.0), R, k, require, '(peak finder input)')
    if ret_sp:
        require(np.array_equal(ret[2], seen[0]), 'returned spectrum differs from the one searched')
    require(bool(ret[0]) == (len(flat) >= k), 'resolved={} with {} peaks, k={}', ret[0], len(flat), k)
    rec.step(2)
    if ret[0]:
        want = SP.top_k(seen[0], [tuple(int(a[i]) for a in idx) for i in range(len(flat))], k)
        if want is None:
            raise Skip()
        check_estimates(ret[1], g, want)
    else:
        require(empty(ret[1]), 'unresolved but estimates {}', ret[1])
    rec.state(e, g.name, mask, k)


# ---------------------------------------------------- on-grid recovery
@functools.lru_cache(None)
def rec_cases(thorough):
    L, G, P, C = alpha.PTYPES
    g1 = [SP.Grid('r-rad', 'ff1d', 'rad', [SP.lin(-1.45, 1.45, 14)]),
          SP.Grid('r-deg', 'ff1d', 'deg', [[-80, -62, -50, -33, -20, -6, 5, 19, 30, 44, 59, 75, 85]]),
          SP.Grid('r-sin', 'ff1d', 'sin', [SP.lin(-0.96, 0.97, 13)])]
    g2 = [SP.Grid('r-2d', 'ff2d', 'rad', [SP.lin(-2.9, 2.9, 8), SP.lin(0.1, 1.3, 4)])]
    gn = [SP.Grid('r-nf', 'nf2d', 'm', [SP.lin(-2.0, 2.0, 5), SP.lin(0.6, 2.6, 4)])]
    ula = SP.Setup('ula5', alpha.ula(5, 0.5))
    ulk = SP.Setup('ula5k', alpha.ula(5, 0.45), [(G, 0, True, 1), (P, 0, True, 1), (C, 0, True, .5), (L, 0, True, .5)])
    uca = SP.Setup('uca7', alpha.uca(7, 0.5), [(L, 1, True, 0.3), (G, 0, True, 1)])
    ura = SP.Setup('ura33', alpha.ura(3, 3, 0.4))
    out = []
    for g in g1:
        for s in (ula, ulk) + ((uca,) if thorough else ()):
            n = len(g.points)
            maxk = 3 if not thorough else 4
            for k in range(1, maxk + 1):
                for t in itertools.combinations(range(1, n - 1), k):
                    if all(b - a >= 2 for a, b in zip(t, t[1:])):
                        if s is uca and k > 2:
                            continue
                        out.append((s, g, t))
    for g in g2 + gn:
        for s in (uca, ura):
            n0, n1 = g.shape
            cells = [(i, j) for i in range(n0) for j in range(n1)]
            sel = cells if thorough else cells[::2]
            for k in (1, 2):
                for t in itertools.combinations(sel, k):
                    if all(max(abs(a[0] - b[0]), abs(a[1] - b[1])) >= 2 for a, b in itertools.combinations(t, 2)):
                        out.append((s, g, tuple(i * n1 + j for i, j in t)))
    return out


def gen_rec(c):
    return c.choose('case', rec_cases(c.thorough)), c.choose('estimator', ['MUSIC', 'MinNorm']), c.choose('powers', [0, 1]), \
        c.choose('sigma', [0.1, 2.0] if c.thorough else [0.5])


def run_rec(sc, rec):
    (s, g, flat), e, pw, sigma = sc
    pts = g.points
    A = s.steering(g.kind, [pts[i] for i in flat], g.unit, 1.0, 'all')
    k = len(flat)
    # identifiability of the scenario itself: no other grid point in the signal subspace
    full = SP.atoms(s, g, 1.0, 'all')
    Q, sv, _ = np.linalg.svd(A, full_matrices=False)
    if sv[-1] < 1e-2 * sv[0]:
        raise Skip()
    res = np.sum(np.abs(full) ** 2, axis=0) - np.sum(np.abs(Q.conj().T @ full) ** 2, axis=0)
    res[list(flat)] = 1.0
    if res.min() < 1e-3:
        raise Skip()
    p = np.array([[1.0, 1.0, 1.0, 1.0], [0.3, 2.0, 1.0, 5.0]][pw][:k])
    R = (A * p) @ A.conj().T + sigma * np.eye(s.size)
    if e == 'MinNorm':
        d, _ = SP.spectrum(e, full, R, k)
        d = d.copy()
        d[list(flat)] = 1.0
        if d.min() < 1e-6:        # extraneous zero of the polynomial on the grid
            raise Skip()
    ok, est, sp = SP.estimator_class(e)(s.make(), 1.0, g.make()).estimate(R, k, return_spectrum=True)
    require(ok, 'on-grid sources {} not resolved', flat)
    check_estimates(est, g, sorted(flat))
    rec.step()
    rec.state(s.name, g.name, flat, e, pw, sigma)


# ------------------------------------------------ nearly equal peaks
TIE_GRIDS = {'deg': [-72, -55, -40, -21, -8, 8, 21, 40, 55, 72], 'sin': [-0.97, -0.8, -0.6, -0.3, -0.1, 0.1, 0.3, 0.6, 0.8, 0.97]}


def gen_tie(c):
    return c.choose('estimator', ['Bartlett', 'MVDR']), c.choose('unit', ['deg', 'sin']), c.choose('pair', [(2, 7), (3, 6), (1, 8)]), \
        c.choose('difference', [1e-3, 1e-5, 1e-8, 1e-9]), c.choose('larger', [0, 1]), c.choose('m', [8, 9, 10]), c.choose('scale', [1.0, 1e-6, 1e7]), c.choose('k', [1, 2])


def run_tie(sc, rec):
    e, u, pair, eps, big, m, scale, k = sc
    g = SP.Grid('tie-' + u, 'ff1d', u, [TIE_GRIDS[u]])
    s = SP.Setup('tie%d' % m, alpha.ula(m, 0.5))
    full = SP.atoms(s, g, 1.0)
    A = full[:, list(pair)]
    p = np.array([1.0, 1.0])
    p[big] += eps
    R = scale * ((A * p) @ A.conj().T + 0.5 * np.eye(m))
    ok, est, sp = SP.estimator_class(e)(s.make(), 1.0, g.make()).estimate(R, k, return_spectrum=True)
    SP.compare_spectrum(e, sp, full, R, k, require)
    pk = SP.peaks(sp)
    if pk is None or set((i,) for i in pair) - set(pk):
        raise Skip()
    want = SP.top_k(sp, pk, k)
    if want is None:
        raise Skip()
    require(ok, 'not resolved')
    # independent order: the stronger of the two symmetric sources
    if set(want) == set(pair) or k == 1 and want[0] in pair:
        require(k == 2 or want == [pair[big]], 'spectrum orders the nearly equal peaks the wrong way')
        rec.count('near_ties')
    check_estimates(est, g, want)
    rec.step(2)
    rec.state(*sc)


# ------------------------------------------------ plateaus
def gen_plat(c):
    e = c.choose('estimator', SP.EST)
    u = c.choose('unit', ['rad', 'deg', 'sin'])
    k = c.choose('k', [1, 2])
    kind = c.choose('kind', ['repeated', 'mirrored'] if k == 1 else ['repeated'])
    return e, u, k, kind, c.choose('m', [6, 8, 9]), c.choose('sources', [(2, 5), (5, 2), (1, 4), (3, 6)]), c.choose('scale', [1.0, 1e-6])


def run_plat(sc, rec):
    """A peak shared by two neighbouring grid points is one peak."""
    e, u, k, kind, m, at, scale = sc
    base = [-1.2, -0.95, -0.6, -0.25, 0.1, 0.45, 0.8, 1.15]
    s = SP.Setup('plat%d' % m, alpha.ula(m, 0.5))
    if kind == 'repeated':
        pk = list(at[:k])
        pts = sorted(base + [base[i] for i in pk])
        src, two = [base[i] for i in pk], [(base[i],) for i in pk]
    else:
        # the source lies half way between two grid points
        pts = [-1.1, -0.8, -0.5, -0.05 * at[0], 0.05 * at[0], 0.5, 0.8, 1.1]
        src, two = [0.0], [(pts[3], pts[4])]
    g = SP.Grid('plat', 'ff1d', u, [[ref.from_rad(v, u) for v in pts]])
    A = s.steering('ff1d', [ref.from_rad(v, u) for v in src], u, 1.0, 'all')
    R = scale * ((A * np.array([1.0, 1.6])[:k]) @ A.conj().T + 0.2 * np.eye(m))
    full = s.steering('ff1d', g.points, u, 1.0, 'known')
    ok, est, sp = SP.estimator_class(e)(s.make(), 1.0, g.make()).estimate(R, k, return_spectrum=True)
    SP.compare_spectrum(e, sp, full, R, k, require)
    rec.step()
    # the k shared peaks are the largest ones by a margin
    want, rcp = SP.spectrum(e, full, R, k)
    want = 1.0 / np.maximum(want, 1e-12) if rcp else want
    shared = [i for i, v in enumerate(pts) if any(v in t for t in two)]
    other = np.delete(want, shared)
    if other.max() > 0.9 * want[shared].min():
        raise Skip()
    require(ok, 'peaks shared by two grid points are not found: {}', sp.tolist())
    require(est.size == k, '{} estimates', est.size)
    got = sorted(ref.to_rad(v, u) for v in est.locations)
    for v, t in zip(got, sorted(two)):
        require(any(abs(v - x) < 1e-9 for x in t), 'estimates {} expected one of each of {}', got, two)
    rec.step()
    rec.count('plateaus')
    rec.state(*sc)


def gen_find(c):
    n = c.choose('n', [3, 4, 5, 6, 7] + ([8] if c.thorough else []))
    return [c.choose('level', [0.0, 1.0, 2.5] if n < 7 else [0.0, 1.0]) for _ in range(n)], c.choose('scale', [1.0, 1e-12])


def run_find(sc, rec):
    """The default peak finder on every level sequence."""
    from doatools.estimation.core import find_peaks_simple
    x, scale = sc
    a = np.array(x) * scale
    a0 = a.copy()
    ret = find_peaks_simple(a)
    require(isinstance(ret, tuple) and len(ret) == 1, 'one array of indices per dimension expected: {}', ret)
    got = [int(i) for i in ret[0]]
    runs = [list(v) for _, v in itertools.groupby(range(len(x)), key=lambda i: x[i])]
    top = [r for r, p, q in zip(runs[1:-1], runs, runs[2:]) if x[p[0]] < x[r[0]] > x[q[0]]]
    require(len(got) == len(top) and all(i in r for i, r in zip(sorted(got), top)), 'peaks of {}: {} expected one in each of {}', x, got, top)
    require(np.array_equal(a, a0), 'spectrum modified')
    rec.step()
    rec.state(x)


def gen_find2(c):
    sh = c.choose('shape', [(2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)])
    n = sh[0] * sh[1]
    left = list(range(n))
    out = []
    if n <= 6:
        for _ in range(n):
            v = c.choose('rank', list(left))
            left.remove(v)
            out.append(v)
    else:
        q = c.choose('multiplier', list(range(1, 31)))
        out = [pow(3, i * q % 30, 31) + 0.001 * i for i in range(1, n + 1)]
    return sh, out


def run_find2(sc, rec):
    from doatools.estimation.core import find_peaks_simple
    sh, v = sc
    a = np.array(v, dtype=float).reshape(sh)
    ret = find_peaks_simple(a.copy())
    require(isinstance(ret, tuple) and len(ret) == 2, 'one array of indices per dimension expected: {}', ret)
    require(sorted(zip(ret[0].tolist(), ret[1].tolist())) == SP.peaks(a), 'peaks of {}: {} expected {}', a.tolist(), ret, SP.peaks(a))
    rec.step()
    rec.state(sh, v)


# ------------------------------------------------ the documented functions
def gen_f(c):
    return c.choose('m', [1, 2, 3, 4, 5]), c.choose('n', [1, 2, 7]), c.choose('q', [1, 2, 4]), c.choose('cplx', [True, False])


def run_f(sc, rec):
    from doatools.estimation.beamforming import f_bartlett, f_mvdr
    from doatools.estimation.music import f_music
    m, n, q, cp = sc
    A = ref.generic(m, n, 1, cp) + 2.0
    En = ref.generic(m, min(q, m), 2, cp)
    R = ref.herm_pd(m, 4)
    if not cp:
        R = R.real
    want = [1.0 / sum(abs(sum(En[i, j].conj() * A[i, x] for i in range(m))) ** 2 for j in range(En.shape[1])) for x in range(n)]
    require(ref.close(f_music(A, En), np.array(want), 1e-9), 'f_music')
    want = [sum(A[i, x].conj() * R[i, j] * A[j, x] for i in range(m) for j in range(m)).real for x in range(n)]
    require(ref.close(f_bartlett(A, R), np.array(want), 1e-9), 'f_bartlett')
    Ri = np.linalg.inv(R)
    want = [1.0 / sum(A[i, x].conj() * Ri[i, j] * A[j, x] for i in range(m) for j in range(m)).real for x in range(n)]
    require(ref.close(f_mvdr(A, R), np.array(want), 1e-8), 'f_mvdr')
    rec.step(3)
    rec.state(m, n, q, cp)


HARNESSES = [Tree('plateaus', gen_plat, run_plat), Tree('peak finder', gen_find, run_find), Tree('peak finder 2d', gen_find2, run_find2),
             Tree('functions', gen_f, run_f), Tree('spectrum', gen, run), Tree('layouts', gen_layout, run), Tree('units of length', gen_unit, run), Tree('large', gen_large, run_large), Tree('peak-sets', gen_pk, run_pk), Tree('near-ties', gen_tie, run_tie),
             Tree('on-grid', gen_rec, run_rec)]
