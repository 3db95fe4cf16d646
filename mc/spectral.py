"""Shared scenario alphabet of the spectrum-based estimators (C09-C11, C14)."""
import functools
import math

import numpy as np

from . import alpha, ref

PI = math.pi
L, G, P, C = alpha.PTYPES


def lin(a, b, n):
    return [a + (b - a) * i / n for i in range(n)]


class Setup:
    """An array with perturbations and an element, plus its reference."""

    def __init__(self, name, sp, perts=(), elem=0, dims=('ff1d',)):
        self.name = name
        self.sp = sp
        self.perts = [(t, alpha.pert_params(t, sp.size, v) * s, k) for t, v, k, s in perts]
        self.elem = elem
        self.unit = 1.0             # unit of length
        self.kinds = dims

    @property
    def size(self):
        return self.sp.size

    def make(self):
        from .props.c02 import element
        kw = {}
        if self.perts:
            kw['perturbations'] = [alpha.pert_class(t)(p.copy(), k) for t, p, k in self.perts]
        if self.elem:
            kw['element'] = element(self.elem)
        return self.sp.make(**kw)

    def steering(self, kind, locs, unit, wl, filt):
        from .props.c02 import response
        use = [(t, p) for t, p, k in self.perts if filt == 'all' or (filt == 'known' and k)]
        A = ref.steering(self.sp.loc, kind, locs, unit, wl, use, response(self.elem) if self.elem else None)
        return A[0]

    def at(self, f):
        """The same setup in another unit of length."""
        out = Setup('%s*%g' % (self.name, f), self.sp.at(f), elem=self.elem, dims=self.kinds)
        out.unit = f
        out.perts = [(t, p * f if t == L else p, k) for t, p, k in self.perts]
        return out

    def __repr__(self):
        return self.name


# units of length: micrometres, millimetres, sound in air, long waves
UNITS = [1.23456789e-6, 1.5e-3, 343.0, 2e5]


@functools.lru_cache(None)
def setups_at(f):
    return [s.at(f) for s in setups() if not s.elem]


@functools.lru_cache(None)
def grids_at(f):
    return [g.at(f) for g in grids()]


@functools.lru_cache(None)
def setups(thorough=False):
    both = ('ff1d', 'ff2d', 'nf2d')
    lin1 = ('ff1d', 'nf2d')
    out = [
        Setup('ula5', alpha.ula(5, 0.5), dims=lin1),
        Setup('ula4-known', alpha.ula(4, 0.45), [(G, 0, True, 1), (P, 0, True, 1), (C, 0, True, .5)], dims=lin1),
        Setup('ula4-unknown', alpha.ula(4, 0.5), [(L, 1, False, 1), (G, 1, False, 1), (C, 1, False, 1)], dims=lin1),
        Setup('uca5-mixed', alpha.uca(5, 0.6), [(L, 1, True, 1), (P, 0, False, 1), (G, 1, True, 1)], dims=both),
        Setup('ura23', alpha.ura(2, 3, [0.4, 0.45]), dims=both),
        Setup('nested22-s1', alpha.nested(2, 2, 0.5), elem=1, dims=lin1),
        Setup('cust3d-mixed', alpha.custom('c3', [[0.1, 0.2, 0.3], [0.5, -0.1, 0.2], [-0.3, 0.4, -0.2], [0.2, 0.7, 0.5], [-0.4, -0.3, 0.1]]),
              [(C, 0, False, 1), (P, 1, True, 1)], dims=both),
        Setup('uca5-s1', alpha.uca(5, 0.6), [(L, 2, True, .4), (P, 1, False, .3)], elem=1, dims=both),
    ]
    if thorough:
        out += [
            Setup('ula7', alpha.ula(7, 0.5), dims=lin1),
            Setup('ula2', alpha.ula(2, 0.5), dims=lin1),
            Setup('coprime', alpha.coprime(2, 3, 0.5), [(L, 2, True, 1)], dims=lin1),
            Setup('uca6-s1', alpha.uca(6, 0.7), [(L, 2, True, 1), (C, 0, False, .5)], elem=1, dims=both),
            Setup('ura33', alpha.ura(3, 3, 0.4), [(C, 0, True, .3), (G, 0, False, 1)], dims=both),
        ]
    return out


class Grid:
    def __init__(self, name, kind, unit, axes):
        self.name, self.kind, self.unit = name, kind, unit
        self.axes = [[float(v) for v in a] for a in axes]
        self.shape = tuple(len(a) for a in axes)

    @property
    def points(self):
        if len(self.axes) == 1:
            return list(self.axes[0])
        return [[x, y] for x in self.axes[0] for y in self.axes[1]]

    def make(self):
        from doatools.estimation import grid as E
        ax = tuple(np.array(a) for a in self.axes)
        if self.kind == 'ff1d':
            return E.FarField1DSearchGrid(unit=self.unit, axes=ax)
        if self.kind == 'ff2d':
            return E.FarField2DSearchGrid(unit=self.unit, axes=ax)
        return E.NearField2DSearchGrid(axes=ax)

    def at(self, f):
        if self.kind != 'nf2d':
            return self
        return Grid('%s*%g' % (self.name, f), self.kind, self.unit, [[v * f for v in a] for a in self.axes])

    def placement_class(self):
        from doatools.model import sources as S
        return {'ff1d': S.FarField1DSourcePlacement, 'ff2d': S.FarField2DSourcePlacement,
                'nf2d': S.NearField2DSourcePlacement}[self.kind]

    @property
    def units(self):
        return (self.unit,) * len(self.axes)

    def __repr__(self):
        return self.name


@functools.lru_cache(None)
def grids(thorough=False):
    R2D = 180 / PI
    ax = lin(-PI / 2 + 0.05, PI / 2, 24)
    un = [-1.5, -1.2, -1.1, -0.8, -0.55, -0.5, -0.2, 0.03, 0.1, 0.4, 0.45, 0.9, 1.3, 1.55]
    az, el = lin(-2.9, 2.9, 11), lin(0.05, 1.4, 6)
    out = [
        Grid('ff1d-rad', 'ff1d', 'rad', [ax]),
        Grid('ff1d-deg-uneven', 'ff1d', 'deg', [[v * R2D for v in un]]),
        Grid('ff1d-sin', 'ff1d', 'sin', [lin(-0.97, 1.0, 21)]),
        Grid('ff2d-rad', 'ff2d', 'rad', [az, el]),
        Grid('ff2d-deg', 'ff2d', 'deg', [[v * R2D for v in az[:7]], [v * R2D for v in el]]),
        Grid('nf2d', 'nf2d', 'm', [lin(-3.0, 3.1, 8), lin(0.9, 5.3, 7)]),
    ]
    if thorough:
        out += [Grid('ff1d-rad-60', 'ff1d', 'rad', [lin(-PI / 2 + 0.02, PI / 2, 60)]),
                Grid('ff2d-rad-24x10', 'ff2d', 'rad', [lin(-3.1, 3.1, 24), lin(0.02, 1.5, 10)]),
                Grid('nf2d-uneven', 'nf2d', 'm', [[-4.0, -3.0, -1.0, -0.7, 0.3, 2.0, 2.5, 6.0], [0.5, 0.8, 2.0, 3.0, 7.0]])]
    return out


@functools.lru_cache(None)
def large_setups():
    both = ('ff1d', 'ff2d', 'nf2d')
    return [Setup('L-ula8', alpha.ula(8, 0.5), dims=('ff1d',)), Setup('L-ula9-pert', alpha.ula(9, 0.5), [(L, 1, True, .3), (C, 0, True, .2), (G, 1, False, 1)], dims=('ff1d',)),
            Setup('L-ula12', alpha.ula(12, 0.45), [(P, 0, True, 1)], dims=('ff1d', 'nf2d')), Setup('L-ula20', alpha.ula(20, 0.5), dims=('ff1d',)),
            Setup('L-uca11', alpha.uca(11, 0.8), [(L, 2, True, .3), (P, 1, False, 1)], dims=both), Setup('L-ura44', alpha.ura(4, 4, 0.5), dims=both),
            Setup('L-nested45', alpha.nested(4, 5, 0.5), elem=1, dims=('ff1d',))]


@functools.lru_cache(None)
def large_grids():
    out = []
    for n in (64, 65, 100, 180, 181, 256, 361):
        u = ('rad', 'deg', 'sin')[n % 3]
        f = {'rad': PI / 2, 'deg': 90.0, 'sin': 1.0}[u]
        out.append(Grid('L%d-%s' % (n, u), 'ff1d', u, [lin(-f, f, n)]))
    out += [Grid('L-uneven', 'ff1d', 'deg', [[90 * math.sin(-1.5 + 3.0 * i / 140) for i in range(140)]]),
            Grid('L-az-el', 'ff2d', 'rad', [lin(-PI, PI, 40), lin(0.0, PI / 2, 12)]), Grid('L-az-el-deg', 'ff2d', 'deg', [lin(-180.0, 180.0, 24), lin(0.0, 90.0, 31)]),
            Grid('L-nf', 'nf2d', 'm', [lin(-4.0, 4.0, 33), lin(0.6, 7.0, 21)])]
    return out


def large_cov(s, g, wl, k, noise, seed=0):
    locs = alpha.many_sources(g.kind, g.unit, k)
    A = s.steering(g.kind, locs, g.unit, wl, 'all')
    m = s.size
    R = (A * (1.0 + 0.3 * np.arange(k))) @ A.conj().T + 0.5 * np.eye(m) + noise * ref.hermitian(m, seed)
    return 0.5 * (R + R.conj().T)


_cache = {}


def atoms(setup, grid, wl, filt='known'):
    key = (setup.name, grid.name, wl, filt)
    if key not in _cache:
        _cache[key] = setup.steering(grid.kind, grid.points, grid.unit, wl, filt)
    return _cache[key]


def _length(grid):
    return float(grid.name.split('*')[1]) if '*' in grid.name else 1.0


# on-grid / off-grid source sets of every grid kind, as grid index fractions
def cov(setup, kind, wl, grid, seed=0):
    """A covariance matrix of the alphabet."""
    m = setup.size
    if kind == 'pd':
        return ref.herm_pd(m, 3 + seed)
    if kind == 'realpd':
        X = ref.generic(m, m, 5 + seed, False)
        return X @ X.T / m + 0.3 * np.eye(m)
    if kind == 'near-real':         # almost, but not quite, of a simpler structure
        return cov(setup, 'realpd', wl, grid, seed) + 3e-4j * ref.hermitian(m, seed).imag
    if kind == 'near-white':
        return np.eye(m) + 1e-3 * ref.hermitian(m, seed)
    if kind == 'diag':              # independent sensors of unequal noise
        return np.diag(0.5 + 0.7 * np.arange(m) % 4.1 + 0.05 * np.arange(m))
    if kind == 'int':               # integers, as an integer matrix
        X = np.array([[(3 * i + 5 * j * j + 2 * i * j + seed) % 7 - 3 for j in range(m)] for i in range(m)])
        return X @ X.T + np.diag(np.arange(1, m + 1))
    if kind in ('tiny', 'huge'):
        return ref.herm_pd(m, 3 + seed) * {'tiny': 1e-9, 'huge': 1e9}[kind]
    floor = 0.2 * np.eye(m) + 0.02 * ref.hermitian(m, seed)
    if kind == 'indef':             # well separated eigenvalues of both signs, the most negative one large in magnitude
        U = np.linalg.eigh(ref.herm_pd(m, 9 + seed))[1]
        return (U * (0.4 + 0.7 * np.arange(m) - 0.6 * (m - 1))) @ U.conj().T
    if kind == 'ill':               # condition number of about 1e7
        kind = 'two-corr'
        floor = 1e-6 * ref.herm_pd(m, 8 + seed)
    if kind in ('noise-free', 'noise-free2'):      # rank deficient
        kind, floor = {'noise-free': 'one', 'noise-free2': 'two-corr'}[kind], 0.0
    n = {'one': 1, 'two': 2, 'three': 3, 'two-corr': 2}[kind]
    n = min(n, m - 1)
    if grid.kind == 'ff1d':
        locs = [ref.from_rad(v, grid.unit) for v in [0.33, -0.71, 1.02][:n]]
    elif grid.kind == 'ff2d':
        locs = [[ref.from_rad(v, grid.unit) for v in p] for p in [[0.5, 0.6], [-1.3, 0.4], [2.1, 0.9]][:n]]
    else:
        u = _length(grid)
        locs = [[x * u, y * u] for x, y in [[-1.0, 2.3], [1.4, 3.1], [0.2, 1.4]][:n]]
    A = setup.steering(grid.kind, locs, grid.unit, wl, 'all')
    Ps = np.diag([1.0 + 0.7 * i for i in range(n)]).astype(complex)
    if kind == 'two-corr' and n == 2:
        Ps[0, 1] = 0.5 + 0.3j
        Ps[1, 0] = 0.5 - 0.3j
    R = A @ Ps @ A.conj().T + floor
    return 0.5 * (R + R.conj().T)


EST = ['MUSIC', 'MinNorm', 'Bartlett', 'MVDR']


def estimator_class(name):
    from doatools.estimation import beamforming, min_norm, music
    return {'MUSIC': music.MUSIC, 'MinNorm': min_norm.MinNorm, 'Bartlett': beamforming.BartlettBeamformer,
            'MVDR': beamforming.MVDRBeamformer}[name]


def spectrum(name, A, R, k):
    """Reference spectrum value of every column of A, as (value, is_reciprocal):
    for the peaky methods the reciprocal is returned."""
    R = np.asarray(R)
    if name == 'Bartlett':
        return np.real(np.einsum('ij,ij->j', A.conj(), R @ A)), False
    if name == 'MVDR':
        return np.real(np.einsum('ij,ij->j', A.conj(), np.linalg.solve(R, A))), True
    Pn, _ = ref.noise_projector(R, k)
    if name == 'MUSIC':
        return np.real(np.einsum('ij,ij->j', A.conj(), Pn @ A)), True
    d = Pn[:, 0] / Pn[0, 0].real          # minimum norm vector of the noise subspace with unit first entry
    return np.abs(d.conj() @ A) ** 2, True


def compare_spectrum(name, sp, A, R, k, require, what=''):
    want, rec = spectrum(name, A, R, k)
    got = np.asarray(sp, dtype=float).ravel()
    require(got.shape == want.shape, 'spectrum of {} points, expected {}', got.shape, want.shape)
    scale = np.max(np.abs(want)) + 1e-300
    if rec:
        with np.errstate(all='ignore'):
            got = 1.0 / got
    bad = np.abs(got - want) > 1e-7 * np.abs(want) + 1e-10 * scale
    require(not np.any(bad), '{} spectrum {} differs at points {}:{} {} expected {}', name, what, np.nonzero(bad)[0][:5],
            ' reciprocal' if rec else '', got[bad][:5], want[bad][:5])


def peaks(sp):
    """Peaks of the default finder, or None if a plateau makes them ambiguous."""
    if sp.ndim == 1:
        if np.any(sp[1:] == sp[:-1]):
            return None
        return [(i,) for i in range(1, len(sp) - 1) if sp[i - 1] < sp[i] > sp[i + 1]]
    out = []
    for i in range(sp.shape[0]):
        for j in range(sp.shape[1]):
            nb = sp[max(0, i - 1):i + 2, max(0, j - 1):j + 2]
            if sp[i, j] >= nb.max():
                out.append((i, j))
    return out


def top_k(sp, pk, k):
    """Flat indices of the k largest peaks in grid order, None if ambiguous."""
    order = sorted(pk, key=lambda t: -sp[t])
    if k < len(order) and sp[order[k - 1]] == sp[order[k]]:
        return None
    sel = order[:k]
    return sorted(int(np.ravel_multi_index(t, sp.shape)) for t in sel)
