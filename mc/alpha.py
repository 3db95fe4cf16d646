"""Finite alphabets shared by the harnesses: arrays, sources, perturbations.

Every item carries the *reference* description next to the factory of the
real object."""
import functools
import itertools
import math

import numpy as np

from . import ref

PI = math.pi


class ArraySpec:
    """name, make(**kw) -> real array, loc: reference element locations."""

    def __init__(self, name, make, loc, grid=None, custom=False, at=None):
        self.at = at                # scale -> the same array in another unit of length
        self.name = name
        self.make = make
        self.loc = np.asarray(loc, dtype=float)
        if self.loc.ndim == 1:
            self.loc = self.loc.reshape(-1, 1)
        self.grid = grid            # dict(indices=, d0=, bases=) or None
        self.custom = custom

    @property
    def size(self):
        return self.loc.shape[0]

    def __repr__(self):
        return self.name


def _A():
    from doatools.model import arrays
    return arrays


def ula(n, d0=0.5):
    return ArraySpec('ULA(%d,%g)' % (n, d0),
                     lambda **kw: _A().UniformLinearArray(n, d0, **kw),
                     [i * d0 for i in range(n)],
                     dict(indices=[[i] for i in range(n)], d0=[d0], bases=[[d0]]), at=lambda f: ula(n, d0 * f))


def nested(n1, n2, d0=0.5):
    # Pal & Vaidyanathan: inner ULA {0..n1-1}, outer {(n1+1)m - 1, m=1..n2}
    ind = list(range(n1)) + [(n1 + 1) * m - 1 for m in range(1, n2 + 1)]
    return ArraySpec('Nested(%d,%d,%g)' % (n1, n2, d0),
                     lambda **kw: _A().NestedArray(n1, n2, d0, **kw),
                     [i * d0 for i in ind],
                     dict(indices=[[i] for i in ind], d0=[d0], bases=[[d0]]), at=lambda f: nested(n1, n2, d0 * f))


def coprime(m, n, d0=0.5, mode='2m'):
    a, b = min(m, n), max(m, n)
    last = 2 * a if mode.lower() == '2m' else a
    ind = [a * i for i in range(b)] + [b * i for i in range(1, last)]
    return ArraySpec('CoPrime(%d,%d,%g,%s)' % (m, n, d0, mode),
                     lambda **kw: _A().CoPrimeArray(m, n, d0, mode, **kw),
                     [i * d0 for i in ind],
                     dict(indices=[[i] for i in ind], d0=[d0], bases=[[d0]]), at=lambda f: coprime(m, n, d0 * f, mode))


@functools.lru_cache(None)
def mrla(n, d0=0.5):
    # the indices themselves are judged by C01 (hole-free difference coarray)
    ind = [int(i) for i in _A().MinimumRedundancyLinearArray(n, 1.0).element_indices.ravel()]
    return ArraySpec('MRLA(%d,%g)' % (n, d0),
                     lambda **kw: _A().MinimumRedundancyLinearArray(n, d0, **kw),
                     [i * d0 for i in ind],
                     dict(indices=[[i] for i in ind], d0=[d0], bases=[[d0]]), at=lambda f: mrla(n, d0 * f))


def uca(n, r=0.7):
    return ArraySpec('UCA(%d,%g)' % (n, r),
                     lambda **kw: _A().UniformCircularArray(n, r, **kw),
                     [[r * math.cos(2 * PI * i / n), r * math.sin(2 * PI * i / n)] for i in range(n)], at=lambda f: uca(n, r * f))


def ura(m, n, d0=0.5):
    dx, dy = (d0, d0) if np.isscalar(d0) else d0
    ind = [[i, j] for i in range(m) for j in range(n)]
    return ArraySpec('URA(%d,%d,%r)' % (m, n, d0),
                     lambda **kw: _A().UniformRectangularArray(m, n, d0, **kw),
                     [[i * dx, j * dy] for i, j in ind],
                     dict(indices=ind, d0=[dx, dy], bases=[[dx, 0.0], [0.0, dy]]), at=lambda f: ura(m, n, d0 * f if np.isscalar(d0) else [d * f for d in d0]))


def grid_bases(name, ind, bases):
    loc = [[sum(i[a] * bases[a][c] for a in range(len(bases))) for c in range(len(bases[0]))] for i in ind]
    d0 = [math.sqrt(sum(v * v for v in b)) for b in bases]
    return ArraySpec(name,
                     lambda **kw: _A().GridBasedArrayDesign(np.array(ind), name=name,
                                                            bases=np.array(bases), **kw),
                     loc, dict(indices=ind, d0=d0, bases=bases), custom=True,
                     at=lambda f: grid_bases('%s*%g' % (name, f), ind, [[v * f for v in b] for b in bases]))


def grid_d0(name, ind, d0):
    d = len(ind[0])
    dd = [d0] * d if np.isscalar(d0) else list(d0)
    return ArraySpec(name,
                     lambda **kw: _A().GridBasedArrayDesign(np.array(ind), d0, name, **kw),
                     [[i[a] * dd[a] for a in range(d)] for i in ind],
                     dict(indices=ind, d0=dd,
                          bases=[[dd[a] if a == b else 0.0 for b in range(d)] for a in range(d)]),
                     custom=True, at=lambda f: grid_d0('%s*%g' % (name, f), ind, [v * f for v in dd]))


def custom(name, loc, as_list=False):
    if as_list:
        mk = lambda **kw: _A().ArrayDesign([list(x) if isinstance(x, (list, tuple)) else x for x in loc], name, **kw)
    else:
        mk = lambda **kw: _A().ArrayDesign(np.array(loc), name, **kw)
    return ArraySpec(name, mk, loc, custom=True, at=lambda f: custom('%s*%g' % (name, f), (np.array(loc) * f).tolist(), as_list))


def steering_arrays(thorough=False):
    out = [
        ula(4, 0.5), nested(2, 2, 0.5), coprime(2, 3, 0.5), uca(4, 0.6), ura(2, 2, 0.5),
        ura(2, 3, [0.4, 0.7]),
        custom('custom3d', [[0.1, 0.2, 0.3], [0.6, -0.1, 0.2], [-0.3, 0.4, -0.5], [0.2, 0.9, 0.7]]),
        custom('custom2d', [[0.3, -0.2], [0.0, 0.45], [-0.7, 0.1]], True),
        custom('custom1d', [-0.4, 0.15, 0.9], True),
        grid_bases('oblique2d', [[0, 0], [1, 0], [0, 1], [2, -1]], [[0.5, 0.1], [0.2, 0.6]]),
        grid_bases('plane-in-3d', [[0, 0], [1, 0], [1, 2]], [[0.5, 0.1, 0.2], [0.0, 0.4, 0.3]]),
    ]
    out += [ura(3, 4, [0.45, 0.6]), mrla(4, 0.5),
            custom('custom3d-10', (ref.generic(10, 3, 4, False)).tolist())]
    if thorough:
        out += [ula(1, 0.5), ula(2, 0.25), ula(7, 0.5), nested(3, 2, 0.5), coprime(3, 4, 0.5, 'm'), uca(5, 1.3), uca(3, 0.4),
                grid_d0('grid3d', [[0, 0, 0], [1, 0, 2], [0, 1, 1], [2, 1, 0]], [0.4, 0.5, 0.6]),
                custom('int1d', [0, 1, 3]), custom('int2d', [[0, 1], [2, 0], [1, 1]]),
                custom('not-at-origin-1d', [0.5, 1.25, 1.5, 2.0])]
    return out


def degenerate_arrays():
    """Arrays with constant (also zero) coordinates, on lines and planes in
    other directions, with coinciding or single elements."""
    base = [[0.0, 0.0, 0.0], [0.7, -0.4, 0.55], [-0.3, 0.9, 0.2], [1.6, 0.25, -0.8]]
    out = []
    for d in (1, 2, 3):
        for mask in itertools.product([None, 0.0, 0.6, -1.3], repeat=d):
            if all(v is None for v in mask):
                continue
            loc = [[x if v is None else v for x, v in zip(row, mask)] for row in base]
            out.append(custom('const%r' % (mask,), loc))
    for d in (1, 2, 3):
        out.append(custom('single%d' % d, [[0.4, -0.3, 0.9][:d]]))
        out.append(custom('pair%d' % d, [[0.4, -0.3, 0.9][:d]] * 2))
        out.append(custom('diag%d' % d, [[0.3 * i] * d for i in range(4)]))
        out.append(custom('nonzero-first%d' % d, [[0.5 + 0.3 * i + j for j in range(d)] for i in (2, 0, 3)]))
    return out


def large_arrays(maximum=64):
    out = [ula(9, 0.5), ula(16, 0.5), ula(17, 0.4), ula(33, 0.5), ula(64, 0.25), nested(8, 8, 0.5), coprime(5, 7, 0.5), coprime(4, 9, 0.5, 'm'),
           uca(11, 0.9), uca(20, 1.5), uca(33, 2.0), ura(5, 5, 0.5), ura(4, 8, [0.4, 0.7]), ura(12, 2, 0.5),
           custom('custom1d-21', (2.0 * ref.generic(21, 1, 2, False)).tolist()), custom('custom2d-18', ref.generic(18, 2, 5, False).tolist()),
           custom('custom3d-26', ref.generic(26, 3, 4, False).tolist()),
           grid_d0('grid3d-27', [[i, j, k] for i in range(3) for j in range(3) for k in range(3)], [0.4, 0.5, 0.6])]
    return [a for a in out if a.size <= maximum]


def many_sources(kind, unit, k):
    """k distinct, unordered locations in the interior of the valid range."""
    u = [((i * 0.6180339887498949 + 0.13) % 1.0) for i in range(k)]
    v = [((i * 0.7548776662466927 + 0.41) % 1.0) for i in range(k)]
    if kind == 'ff1d':
        return [from_unit(-1.45 + 2.9 * x, unit) for x in u]
    if kind == 'ff2d':
        return [[from_unit(-3.0 + 6.0 * x, unit), from_unit(-1.45 + 2.9 * y, unit)] for x, y in zip(u, v)]
    return [[(2.5 + 6 * y) * math.cos(6.2 * x), (2.5 + 6 * y) * math.sin(6.2 * x)] for x, y in zip(u, v)]


def from_unit(x, unit):
    return ref.from_rad(x, unit)


# --------------------------------------------------------------------- sources
class SourceSpec:
    def __init__(self, kind, locs, unit):
        self.kind = kind
        self.locs = locs
        self.unit = unit

    def make(self):
        from doatools.model import sources as S
        a = np.array(self.locs, dtype=float)
        if self.kind == 'ff1d':
            return S.FarField1DSourcePlacement(a, self.unit)
        if self.kind == 'ff2d':
            return S.FarField2DSourcePlacement(a.reshape(-1, 2), self.unit)
        return S.NearField2DSourcePlacement(a.reshape(-1, 2))

    @property
    def size(self):
        return len(self.locs)

    def __repr__(self):
        return '%s/%s%r' % (self.kind, self.unit, self.locs)


FF1D_RAD = [[0.3], [-0.7, 0.2], [0.5, -0.1, 1.1], [-1.5, 0.0, 1.4]]
FF2D_RAD = [[[0.4, 0.3]], [[-2.5, 0.7], [1.2, -0.4]], [[3.0, 0.0], [0.0, 1.2], [-1.0, 0.9]]]
NF2D = [[[1.5, 2.0]], [[-3.0, 1.0], [0.7, -2.2]], [[0.9, 4.0], [2.5, 0.4], [-1.1, 1.3]]]


def source_specs(thorough=False):
    out = []
    for locs in FF1D_RAD:
        for u in ('rad', 'deg', 'sin'):
            out.append(SourceSpec('ff1d', [ref.from_rad(v, u) for v in locs], u))
    for locs in FF2D_RAD:
        for u in ('rad', 'deg'):
            out.append(SourceSpec('ff2d', [[ref.from_rad(v, u) for v in p] for p in locs], u))
    for locs in NF2D:
        out.append(SourceSpec('nf2d', locs, 'm'))
    return out


# --------------------------------------------------------------- perturbations
PTYPES = ['location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling']


def pert_params(t, n, variant=0):
    v = variant
    if v == 'small':                # far below the rest of the array, and of very different sizes
        f = 0.03 ** np.arange(1, n + 1)
        if t == 'mutual_coupling':
            return np.array([[0.03 ** abs(i - j) * np.exp(1j * (i + 2 * j)) if i != j else 1.0 for j in range(n)] for i in range(n)])
        return f[:, None] * [0.7, 0.4] if t == 'location_errors' else 0.8 * f
    if t == 'location_errors':
        d = {0: 1, 1: 2, 2: 3}[v % 3]
        return 0.11 * ref.generic(n, d, 3 + v, False)
    if t == 'gain_errors':
        return np.array([0.3 * math.sin(1.1 * i + 0.5 + v) for i in range(n)])
    if t == 'phase_errors':
        return np.array([0.9 * math.cos(0.7 * i + 0.2 + v) for i in range(n)])
    if t == 'mutual_coupling':
        return np.eye(n) + 0.3 * ref.generic(n, n, 1 + v)
    raise KeyError(t)


def pert_class(t):
    from doatools.model import perturbations as P
    return {'location_errors': P.LocationErrors, 'gain_errors': P.GainErrors,
            'phase_errors': P.PhaseErrors, 'mutual_coupling': P.MutualCoupling}[t]


# ------------------------------------------------------- memory layouts
LAYOUTS = ['fortran', 'strided', 'reversed', 'readonly', 'offset']
COV_LAYOUTS = LAYOUTS + ['rounded']      # Hermitian up to rounding only, like a sample covariance


def relayout(X, how):
    """The same values in another memory layout; nan in the gaps."""
    X = np.asarray(X)
    nan = np.nan if X.dtype.kind in 'fc' else 77
    if how in (None, 'plain'):
        return X
    if how == 'fortran':
        return np.array(X, order='F')
    if how == 'strided':            # every other entry of a larger buffer, every dimension
        buf = np.full(tuple(2 * n + 1 for n in X.shape), nan, dtype=X.dtype)
        out = buf[tuple(slice(1, None, 2) for _ in X.shape)]
        out[...] = X
        return out
    if how == 'reversed':           # negative strides
        f = tuple(slice(None, None, -1) for _ in X.shape)
        return np.ascontiguousarray(X[f])[f]
    if how == 'rounded':
        i, j = np.indices(X.shape)
        d = 4e-16 * np.max(np.abs(X)) * (np.sin(3 * i + 7 * j + 1) + (1j * np.cos(5 * i + 2 * j) if X.dtype.kind == 'c' else 0))
        return X + d if X.dtype.kind in 'fc' else X
    if how == 'offset':             # a block of a larger matrix
        buf = np.full(tuple(n + 3 for n in X.shape), nan, dtype=X.dtype)
        out = buf[tuple(slice(2, 2 + n) for n in X.shape)]
        out[...] = X
        return out
    if how == 'readonly':
        out = X.copy()
        out.setflags(write=False)
        return out
    raise KeyError(how)


TYPES = ['int64', 'int16', 'float32']


def typed(values, how):
    """The values as an array of another type (rounded) or memory layout."""
    x = np.array(values, dtype=float)
    if how is None:
        return x
    if how in TYPES or how in ('int8', 'int32', 'uint8'):
        return x.astype(how)
    return relayout(x, how)


def typed_sources(kind, locs, unit, how):
    """(placement, its exact locations)"""
    from doatools.model import sources as S
    x = typed(locs, how)
    exact = np.array(x, dtype=float).tolist()
    if kind == 'nf2d':
        return S.NearField2DSourcePlacement(x), exact
    return (S.FarField1DSourcePlacement if kind == 'ff1d' else S.FarField2DSourcePlacement)(x, unit), exact
