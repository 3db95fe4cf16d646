"""Scenario alphabet and first-principles references of the performance
analysis checks (C17, C18)."""
import functools
import math

import numpy as np

from . import alpha, ref
from . import spectral as SP

L, G, P, C = alpha.PTYPES
PERTS = [
    ('clean', []),
    ('mixed', [(L, 1, True, 1), (G, 0, False, 1), (P, 1, True, 1), (C, 0, False, .5)]),
    ('loc-known', [(L, 2, True, 1)]),
    ('coupling-unknown', [(C, 1, False, .7)]),
    ('gain-phase', [(P, 0, False, 1), (G, 1, True, 1)]),
]


@functools.lru_cache(None)
def arrays(thorough=False):
    out = [alpha.ula(5, 0.5), alpha.ula(4, 0.4), alpha.nested(2, 2, 0.5), alpha.coprime(2, 3, 0.5), alpha.uca(5, 0.6), alpha.ura(2, 2, [0.4, 0.45]),
           alpha.custom('c3d', [[0.1, 0.2, 0.3], [0.5, -0.1, 0.2], [-0.3, 0.4, -0.2], [0.2, 0.7, 0.5]])]
    if thorough:
        out += [alpha.ula(2, 0.5), alpha.ula(8, 0.5), alpha.nested(3, 3, 0.5), alpha.coprime(3, 4, 0.45, 'm'), alpha.ura(2, 3, 0.4), alpha.uca(7, 1.0)]
    return out


SRC = [[0.3], [-0.5, 0.4], [0.7, -0.2], [-0.9, 0.1, 0.8], [-1.1, -0.4, 0.3, 0.9]]
MANY = [[-1.0, -0.6, -0.25, 0.1, 0.4], [-1.0, -0.5, 0.0, 0.45, 0.8, 1.1]]


@functools.lru_cache(None)
def large(thorough=False):
    """Arrays of 8 to 24 sensors with well separated sources of any number."""
    out = [alpha.ula(9, 0.5), alpha.ula(16, 0.5), alpha.nested(4, 5, 0.5), alpha.coprime(3, 5, 0.5), alpha.uca(12, 1.1), alpha.ura(3, 4, [0.45, 0.5]),
           alpha.custom('custom1d-11', sorted((1.7 * ref.generic(11, 1, 2, False)).tolist())), alpha.custom('custom3d-10', ref.generic(10, 3, 4, False).tolist())]
    if thorough:
        out += [alpha.ula(24, 0.5), alpha.ula(17, 0.4), alpha.nested(6, 6, 0.5), alpha.coprime(4, 5, 0.5, 'm')]
    return out


def spread(k):
    """k unordered sources, evenly spread in sine space"""
    u = [-0.92 + 1.84 * (i + 0.5 + 0.1 * math.sin(3 * i)) / k for i in range(k)]
    st = next(s for s in range(k // 2 + 1, 2 * k + 2) if math.gcd(s, k) == 1)
    return [math.asin(u[(i * st) % k]) for i in range(k)]


def powers(k, form):
    """(argument, K x K reference matrix)"""
    if '@' in form:                 # a memory layout
        x, M = powers(k, form.split('@')[0])
        return alpha.relayout(x, form.split('@')[1]), M
    if form == 'int-vector':
        v = np.array([1 + (2 * i) % 5 for i in range(k)])
        return v, np.diag(v).astype(float)
    if form == 'int8-vector':
        v = np.array([100 + (2 * i) % 5 for i in range(k)], dtype=np.int8)
        return v, np.diag(v.astype(float))
    if form == 'int-full':
        M = np.array([[4 + i if i == j else 1 for j in range(k)] for i in range(k)])
        return M, M.astype(float)
    if form == 'float32-vector':
        v = np.array([1.0 + 0.7 * i for i in range(k)], dtype=np.float32)
        return v, np.diag(v.astype(float))
    if form == 'np-scalar':
        return np.float64(2.5), 2.5 * np.eye(k)
    if form == 'np-int':
        return np.int64(2), 2.0 * np.eye(k)
    if form == 'scalar':
        return 2.5, 2.5 * np.eye(k)
    if form == 'int':
        return 2, 2.0 * np.eye(k)
    v = np.array([1.0 + 0.7 * i for i in range(k)])
    if form == 'list':
        return v.tolist(), np.diag(v)
    if form in ('near-far', 'far-near'):
        # 120 dB between the strongest and the weakest source
        v = np.array([10.0 ** (-3 + (i * 6.0 / max(k - 1, 1))) for i in range(k)])
        v = v if form == 'near-far' else v[::-1].copy()
        return v, np.diag(v)
    if form == 'near-far-full':
        g = np.sqrt([10.0 ** (-2 + (i * 4.0 / max(k - 1, 1))) for i in range(k)])
        M = ref.herm_pd(k, 1, 0.6) * np.outer(g, g)
        return M, M
    if form == 'list-desc':
        return v[::-1].tolist(), np.diag(v[::-1])
    if form == 'mixed':
        v = [1 + i * 0.75 for i in range(k)]
        v[0] = 1
        return v, np.diag(v)
    if form == 'ones':
        return [1] * k, np.eye(k)
    if form == 'vector':
        return v[::-1].copy(), np.diag(v[::-1])
    if form == 'diag':
        return np.diag(v), np.diag(v)
    if form == 'full':
        M = ref.herm_pd(k, 1, 0.6)
        return M, M
    if form == 'real-full':
        M = ref.herm_pd(k, 2, 0.6).real.copy()
        return M, M
    # almost, but not quite, of a simpler structure
    if form == 'near-diag':
        M = np.diag(v) + 1e-3 * ref.hermitian(k, 3) * (1 - np.eye(k))
        return M, M
    if form == 'near-real':
        M = ref.herm_pd(k, 2, 0.6).real + 1e-3j * ref.hermitian(k, 3).imag
        return M, M
    if form == 'near-equal':
        v = np.array([2.0 + 1e-3 * ((3 * i) % 4) for i in range(k)])
        return v, np.diag(v)
    if form == 'near-coherent':
        g = ref.generic(k, 1, 5).ravel() + 0.4
        M = np.outer(g, g.conj()) + 1e-3 * np.eye(k)
        return M, M
    if form == 'coherent':
        g = ref.generic(k, 1, 5).ravel() + 0.4
        M = np.outer(g, g.conj())
        return M, M
    raise KeyError(form)


VEC_FORMS = ['int-vector', 'int8-vector', 'float32-vector', 'np-scalar', 'np-int', 'int-full'] + ['vector@' + x for x in alpha.LAYOUTS[1:]]
FULL_FORMS = ['int-full'] + ['full@' + x for x in alpha.LAYOUTS]


def typed_locations(c, k_max):
    """(type of the locations, unit, sources)"""
    how, unit = c.choose('locations', [(None, 'rad'), ('int64', 'deg'), ('int16', 'deg')] + [(x, u) for x in ['float32'] + alpha.LAYOUTS[1:] for u in ('rad', 'deg', 'sin')])
    return how, unit, c.choose('sources', [s for s in SRC if len(s) <= k_max and (how is None or len(s) in (2, 3) or k_max == 1)])


STEP = {'rad': 2e-4, 'deg': 2e-4 * 180 / math.pi, 'sin': 1e-4}


def steer(setup, locs, unit, wl, filt='all'):
    return setup.steering('ff1d', locs, unit, wl, filt)


def dsteer(setup, locs, unit, wl, filt='all'):
    cols = []
    for k in range(len(locs)):
        f = lambda x: steer(setup, [x], unit, wl, filt)[:, 0]
        cols.append(ref.central_diff(f, locs[k], STEP[unit]))
    return np.array(cols).T


def inv_block(F, k):
    """Location block of the inverse of a symmetric positive definite matrix,
    None if the problem is not identifiable."""
    d = np.sqrt(np.abs(np.diag(F)))
    if np.any(d < 1e-12):
        return None
    Fs = F / np.outer(d, d)
    w = np.linalg.eigvalsh(0.5 * (Fs + Fs.T))
    if w[0] < 1e-7:
        return None
    return np.linalg.inv(Fs)[:k, :k] / np.outer(d[:k], d[:k])


def slepian_bangs(R, dR):
    Ri = np.linalg.inv(R)
    X = [Ri @ d for d in dR]
    n = len(X)
    F = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            F[i, j] = np.sum(X[i] * X[j].T).real
    return F


def reduce(C, mode):
    if mode == 'full':
        return C
    d = np.array([C[i, i] for i in range(len(C))])
    return d if mode == 'diag' else sum(d) / len(d)


def close_rel(a, b, tol):
    """Agreement relative to the standard deviations of the parameters."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if b.ndim == 2:
        d = np.sqrt(np.abs(np.diag(b)))
        scale = np.outer(d, d)
    else:
        scale = np.abs(b)
    return bool(np.all(np.abs(a - b) <= tol * scale))


# ----------------------------------------------- sequences of requests
REQ_LOCS = [[-0.6, 0.25], [0.1, 0.7]]
REQ_WL = [1.0, 0.8]
REQ_POWER = [1.0, 2.5]


def req_p(i):
    return np.array([[2.0, 0.5 + 0.3j], [0.5 - 0.3j, 1.0]]) * np.array([[REQ_POWER[i], 1.0], [1.0, 1.0]])


def requests(name, setups, fns, reference, tol):
    """Any sequence of requests with the same objects, whose content the
    caller changes in between: every answer is that for the present content.
    fns: name -> function(array, sources, wavelength, p, sigma);
    reference(fn, setup, locations, wavelength, p, sigma)."""
    from .engine import Graph, require
    ref_ = functools.lru_cache(None)(lambda f, a, l, p, w: reference(f, setups[a], REQ_LOCS[l], REQ_WL[w], req_p(p), 0.3))
    ev = [('call', f) for f in fns] + [('array',), ('move',), ('power',), ('wavelength',)]

    def run(hist, rec):
        from doatools.model.sources import FarField1DSourcePlacement
        arrs = [s.make() for s in setups]
        src, P = FarField1DSourcePlacement(np.array(REQ_LOCS[0])), req_p(0)
        a = l = p = w = 0
        for e in [tuple(x) for x in hist]:
            if e[0] == 'array':
                a ^= 1
            elif e[0] == 'move':
                l ^= 1
                src.locations[:] = REQ_LOCS[l]
            elif e[0] == 'power':
                p ^= 1
                P[...] = req_p(p)
            elif e[0] == 'wavelength':
                w ^= 1
            else:
                got = fns[e[1]](arrs[a], src, REQ_WL[w], P, 0.3)
                want = ref_(e[1], a, l, p, w)
                require(close_rel(got, want, tol), '{} after {}: {} expected {}', e[1], hist, np.asarray(got).tolist(), want.tolist())
                if isinstance(got, np.ndarray) and got.flags.writeable:
                    got *= 0                       # the caller modifies the answer
            rec.step()
        return list(hist), ev
    return Graph(name, run, {'quick': 4, 'thorough': 5})
