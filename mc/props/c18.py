"""C18 asymptotic MUSIC errors: first-order error propagation."""
import itertools

import numpy as np

from .. import alpha, ref
from .. import perf as PF
from .. import spectral as SP
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['nonsingular source covariances (the expansion does not exist otherwise)',
               'derivatives of the reference steering matrix by fourth order differences; agreement to 1e-5 of the largest entry',
               'array manifolds whose condition exceeds 1e5, and derivatives within 1e-3 of the signal subspace, are left open']
TOL = 1e-5


def wishart_cov(Mk, R):
    """x_k = sum_ij Mk[k][i,j] dR[i,j];  N cov(Re x_k, Re x_l) for the sample
    covariance of circular Gaussian snapshots:
    N E[dR_ij dR_pq^*] = R_ip R_qj and N E[dR_ij dR_pq] = R_iq R_pj."""
    n = len(Mk)
    out = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            A, B = Mk[a], Mk[b]
            e1 = np.einsum('ij,pq,ip,qj->', A, B.conj(), R, R, optimize=True)
            e2 = np.einsum('ij,pq,iq,pj->', A, B, R, R, optimize=True)
            out[a, b] = 0.5 * (e1 + e2).real
    return out


def music_functionals(A, D, P):
    """Mk with  (estimate - truth)_k = Re sum_ij Mk[i,j] dR[i,j]  at the ideal
    covariance A P A^H + sigma I (first order)."""
    m, k = A.shape
    Pn = np.eye(m) - A @ np.linalg.pinv(A)
    S = np.linalg.pinv(A @ P @ A.conj().T, rcond=1e-12, hermitian=True)
    out = []
    for i in range(k):
        b = Pn @ D[:, i]
        g = np.vdot(b, b).real
        out.append(np.outer(b.conj(), S @ A[:, i]) / g)
    return out


def well_posed(A, D, cond):
    """Derivatives are distinguishable from the signal subspace by far more
    than the accuracy of the numerical differentiation."""
    Pn = np.eye(len(A)) - A @ np.linalg.pinv(A)
    return np.linalg.cond(A) <= cond and np.all(np.linalg.norm(Pn @ D, axis=0) > 1e-3 * np.linalg.norm(D, axis=0))


def check(f, C, args, kw, k, what, rec):
    got = f(*args, **kw)
    rec.step()
    require(PF.close_rel(got, C, TOL), '{}: {} expected {}', what, np.asarray(got).tolist(), C.tolist())
    for n in (1, 9, 400, 10 ** 6):
        for mode in ('full', 'diag', 'mean_diag'):
            got = f(*args, n_snapshots=n, return_mode=mode, **kw)
            rec.step()
            require(PF.close_rel(got, PF.reduce(C, mode) / n, TOL), '{}, {} snapshots, mode {}: {} expected {}', what, n, mode,
                    np.asarray(got).tolist(), (PF.reduce(C, mode) / n).tolist())


def gen_music(c):
    sp = c.choose('array', PF.arrays(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS)
    unit = c.choose('unit', ['rad', 'deg', 'sin'])
    src = c.choose('sources', [s for s in PF.SRC if len(s) < sp.size])
    form = c.choose('p', ['full', 'scalar', 'int', 'list', 'list-desc', 'mixed', 'ones', 'vector', 'diag', 'real-full', 'near-diag', 'near-real', 'near-equal', 'near-coherent'])
    sigma = c.choose('sigma', [0.5, 0.02])
    wl = c.choose('wavelength', [1.0, 0.8])
    filt = c.choose('filter', ['default', 'all', 'known', 'none'] if perts else ['default'])
    return SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, src, form, sigma, wl, filt


SCALES = [1.0, 1e-12, 1e-9, 1e-6, 1e-3, 1e4, 1e8, 1e12]


def scaled(arg, scale):
    return [v * scale for v in arg] if isinstance(arg, list) else arg * scale


def gen_music_scale(c):
    """Powers and noise in other physical units: the errors do not change."""
    sp = c.choose('array', PF.arrays(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS[:2])
    src = c.choose('sources', [s for s in PF.SRC if len(s) < sp.size])
    return SP.Setup('%s/%s' % (sp.name, pn), sp, perts), c.choose('unit', ['rad', 'deg', 'sin']), src, c.choose('p', ['full', 'scalar', 'list', 'near-far', 'far-near', 'near-far-full']), \
        c.choose('sigma', [0.5, 0.02]), 1.0, 'default', c.choose('scale', SCALES)


def gen_coarray_scale(c):
    sp = c.choose('array', coarrays(c.thorough))
    mv = central([i[0] for i in sp.grid['indices']])[1]
    src = c.choose('sources', [s for s in SETS if len(s) < mv])
    return sp, c.choose('unit', ['rad', 'deg', 'sin']), src, c.choose('p', ['vector', 'scalar', 'list', 'full', 'near-far', 'far-near']), c.choose('sigma', [0.5, 0.02]), 1.0, c.choose('scale', SCALES)


def gen_music_unit(c):
    """Arrays and wavelengths in other units of length."""
    sp = c.choose('array', PF.arrays(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS)
    src = c.choose('sources', [s for s in PF.SRC if len(s) < sp.size])
    f = c.choose('unit of length', SP.UNITS)
    return SP.Setup('%s/%s' % (sp.name, pn), sp, perts).at(f), c.choose('unit', ['rad', 'deg', 'sin']), src, 'full', 0.5, f, c.choose('filter', ['default', 'known'] if perts else ['default'])


def gen_coarray_unit(c):
    f = c.choose('unit of length', SP.UNITS)
    sp = c.choose('array', coarrays(c.thorough)).at(f)
    mv = central([i[0] for i in sp.grid['indices']])[1]
    return sp, c.choose('unit', ['rad', 'deg', 'sin']), c.choose('sources', [s for s in SETS if len(s) < mv]), c.choose('p', ['vector', 'scalar']), 0.5, f


def gen_music_typed(c):
    """Other types and memory layouts of the same arguments."""
    sp = c.choose('array', [a for a in PF.arrays(c.thorough) if a.size > 3])
    pn, perts = c.choose('perturbations', PF.PERTS[:2])
    how, unit, src = PF.typed_locations(c, sp.size - 1)
    form = c.choose('p', ['full'] + PF.VEC_FORMS + PF.FULL_FORMS[1:] if how is None else ['full', 'int-full'])
    sigma = c.choose('sigma', [0.5, 1, np.int64(2), np.float32(0.25)])
    return SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, src, form, sigma, 1 if sigma == 1 else 1.0, 'default', None, how


def gen_coarray_typed(c):
    sp = c.choose('array', coarrays(c.thorough))
    mv = central([i[0] for i in sp.grid['indices']])[1]
    how, unit, src = PF.typed_locations(c, mv - 1)
    form = c.choose('p', ['vector'] + PF.VEC_FORMS if how is None else ['vector', 'int-vector'])
    sigma = c.choose('sigma', [0.5, 1, np.int64(2)])
    return sp, unit, src, form, sigma, 1 if sigma == 1 else 1.0, None, how


def run_music(sc, rec):
    s, unit, src, form, sigma, wl, filt = sc[:7]
    scale = sc[7] if len(sc) > 7 else None
    how = sc[8] if len(sc) > 8 else None
    from doatools.performance.mse import ecov_music_1d
    k = len(src)
    spl, locs = alpha.typed_sources('ff1d', [ref.from_rad(v, unit) for v in src], unit, how)
    arg, P = PF.powers(k, form)
    ff = 'all' if filt == 'default' else filt
    A, D = PF.steer(s, locs, unit, wl, ff), PF.dsteer(s, locs, unit, wl, ff)
    if not well_posed(A, D, 1e5):
        raise Skip()
    R = A @ P @ A.conj().T + sigma * np.eye(s.size)
    C = wishart_cov(music_functionals(A, D, P), R)
    arr = s.make()
    if scale is not None:
        arg, sigma = scaled(arg, scale), sigma * scale
    l0, arg0 = spl.locations.copy(), np.array(arg, copy=True)
    kw = {} if filt == 'default' else {'perturbations': filt}
    check(ecov_music_1d, C, (arr, spl, wl, arg, sigma), kw, k, 'MUSIC, perturbations %s' % filt, rec)
    require(np.array_equal(spl.locations, l0) and np.array_equal(np.array(arg), arg0), 'inputs modified')
    rec.state(s.name, unit, src, form, float(sigma), wl, filt, scale, how)


# ------------------------------------------------------------------ coarray
def coarrays(thorough):
    out = [alpha.nested(2, 2, 0.5), alpha.coprime(2, 3, 0.5), alpha.ula(4, 0.5), alpha.nested(2, 3, 0.35), alpha.coprime(3, 2, 0.4),
           alpha.grid_d0('grid014', [[0], [1], [4]], 0.5), alpha.grid_d0('grid-neg', [[-2], [0], [1], [3]], 0.45),
           alpha.grid_d0('grid-unordered', [[5], [0], [1], [3]], 0.5), alpha.grid_d0('grid0', [[0], [2], [4], [5]], 0.25),
           alpha.mrla(4, 0.5), alpha.mrla(5, 0.45), alpha.grid_d0('grid-left', [[0], [1], [4], [6]], -0.5),
           alpha.grid_bases('bases', [[0], [1], [4], [6]], [[0.45]]), alpha.grid_bases('bases-left', [[0], [1], [3], [4]], [[-0.5]])]
    if thorough:
        out += [alpha.nested(3, 3, 0.5), alpha.coprime(2, 5, 0.5), alpha.coprime(3, 4, 0.5, 'm'), alpha.ula(6, 0.3), alpha.nested(1, 4, 0.5), alpha.mrla(3, 0.5), alpha.mrla(6, 0.5)]
    return out


def central(ind):
    diffs = {}
    for i, a in enumerate(ind):
        for j, b in enumerate(ind):
            diffs.setdefault(a - b, []).append((i, j))
    v = 0
    while v in diffs:
        v += 1
    return diffs, v


SETS = [[0.3], [-0.5, 0.4], [-0.9, 0.1, 0.8], [-1.0, -0.4, 0.2, 0.9], [-1.0, -0.6, -0.2, 0.15, 0.5], [-1.1, -0.7, -0.35, 0.0, 0.3, 0.7]]


def gen_coarray(c):
    sp = c.choose('array', coarrays(c.thorough))
    mv = central([i[0] for i in sp.grid['indices']])[1]
    unit = c.choose('unit', ['rad', 'deg', 'sin'])
    src = c.choose('sources', [s for s in SETS if len(s) < mv])
    form = c.choose('p', ['vector', 'scalar', 'int', 'list', 'list-desc', 'mixed', 'ones', 'diag', 'full', 'real-full', 'near-equal', 'near-diag'])
    sigma = c.choose('sigma', [0.5, 0.02, 5.0])
    wl = c.choose('wavelength', [1.0, 0.9])
    return sp, unit, src, form, sigma, wl


def coarray_reference(s, v, locs, unit, wl, p, sigma, diffs, mv):
    A = PF.steer(s, locs, unit, wl)
    R = (A * p) @ A.conj().T + sigma * np.eye(s.size)
    Av, Dv = PF.steer(v, locs, unit, wl), PF.dsteer(v, locs, unit, wl)
    if not well_posed(Av, Dv, 1e3):
        return None
    Mk = []
    for M in music_functionals(Av, Dv, np.diag(p)):
        X = np.zeros((s.size, s.size), dtype=complex)
        for r in range(mv):
            for q in range(mv):
                ent = diffs[r - q]
                for i, j in ent:
                    X[i, j] += M[r, q] / len(ent)
        Mk.append(X)
    return wishart_cov(Mk, R)


def run_coarray(sc, rec):
    sp, unit, src, form, sigma, wl = sc[:6]
    scale = sc[6] if len(sc) > 6 else None
    how = sc[7] if len(sc) > 7 else None
    from doatools.performance.mse import ecov_coarray_music_1d
    k = len(src)
    spl, locs = alpha.typed_sources('ff1d', [ref.from_rad(v, unit) for v in src], unit, how)
    arg, P = PF.powers(k, form)
    p = np.diag(P).real
    s = SP.Setup(sp.name, sp)
    ind = [i[0] for i in sp.grid['indices']]
    diffs, mv = central(ind)
    v = SP.Setup('virtual', alpha.ula(mv, sp.grid['bases'][0][0]))
    C = coarray_reference(s, v, locs, unit, wl, p, sigma, diffs, mv)
    if C is None:
        raise Skip()
    arr = s.make()
    if scale is not None:
        arg, sigma = scaled(arg, scale), sigma * scale
    l0, arg0 = spl.locations.copy(), np.array(arg, copy=True)
    check(ecov_coarray_music_1d, C, (arr, spl, wl, arg, sigma), {}, k, 'coarray MUSIC', rec)
    require(np.array_equal(spl.locations, l0) and np.array_equal(np.array(arg), arg0), 'inputs modified')
    rec.count('more sources than sensors' if k >= s.size else 'fewer sources than sensors')
    rec.state(s.name, unit, src, form, float(sigma), wl, scale, how)


def gen_music_large(c):
    sp = c.choose('array', PF.large(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS)
    k = c.choose('k', [k for k in (5, 6, 8, 1, 2, 11, 14) if k < sp.size])
    form = c.choose('p', ['full', 'list', 'scalar'])
    unit = c.choose('unit', ['rad', 'deg', 'sin'])
    filt = c.choose('filter', ['default', 'known', 'none'] if perts else ['default'])
    return SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, PF.spread(k), form, c.choose('sigma', [0.5, 40.0, 0.01]), 1.0, filt


def gen_coarray_large(c):
    sp = c.choose('array', [alpha.nested(4, 5, 0.5), alpha.coprime(3, 5, 0.5), alpha.ula(10, 0.5), alpha.grid_d0('grid-holes', [[0], [1], [3], [7], [12], [14]], 0.5), alpha.mrla(8, 0.5)] +
                  ([alpha.nested(5, 6, 0.45), alpha.coprime(4, 5, 0.5)] if c.thorough else []))
    mv = central([i[0] for i in sp.grid['indices']])[1]
    k = c.choose('k', [k for k in (5, 7, 9, 2, 12, 15) if k < mv - 1])
    form = c.choose('p', ['vector', 'list-desc', 'full', 'scalar'])
    return sp, c.choose('unit', ['rad', 'deg', 'sin']), PF.spread(k), form, c.choose('sigma', [0.5, 20.0, 0.01]), c.choose('wavelength', [1.0, 0.95])


# The reference functional itself is bound to the real estimator: root-MUSIC
# on R + t dR moves by t times the functional.
def gen_bind(c):
    m = c.choose('m', [4, 5, 6])
    src = c.choose('sources', [s for s in PF.SRC if len(s) < m and len(s) < 4])
    return m, src, c.choose('i', list(range(m))), c.choose('j', list(range(m))), c.choose('part', [1.0, 1j])


def run_bind(sc, rec):
    m, src, i, j, u = sc
    if i == j and u != 1.0:
        raise Skip()
    from doatools.estimation.music import RootMUSIC1D
    s = SP.Setup('ula', alpha.ula(m, 0.5))
    k = len(src)
    P = np.diag([1.0 + 0.7 * q for q in range(k)])
    A, D = PF.steer(s, src, 'rad', 1.0), PF.dsteer(s, src, 'rad', 1.0)
    R = A @ P @ A.conj().T + 0.3 * np.eye(m)
    E = np.zeros((m, m), dtype=complex)
    E[i, j] += u
    E[j, i] += np.conj(u)
    E[i, i] = E[i, i].real
    est = RootMUSIC1D(1.0)
    order = np.argsort(src)

    def at(t):
        ok, e = est.estimate(R + t * E, k)
        require(ok, 'not resolved')
        return np.sort(np.asarray(e.locations))
    h = 3e-3
    # root-MUSIC drops the radial error of the roots to second order
    num = (at(h) - at(-h)) / (2 * h)
    want = np.array([np.sum(M * E).real for M in music_functionals(A, D, P)])[order]
    rec.step()
    require(np.max(np.abs(num - want)) <= 2e-2 * (np.max(np.abs(want)) + 1e-3), 'root-MUSIC moves by {} but the functional is {}', num, want)
    rec.state(*sc)


def reference(name, s, src, wl, P, sigma):
    A = PF.steer(s, src, 'rad', wl)
    if name == 'music':
        R = A @ P @ A.conj().T + sigma * np.eye(s.size)
        return wishart_cov(music_functionals(A, PF.dsteer(s, src, 'rad', wl), P), R)
    p = np.diag(P).real
    diffs, mv = central([i[0] for i in s.sp.grid['indices']])
    v = SP.Setup('virtual', alpha.ula(mv, s.sp.grid['bases'][0][0]))
    return coarray_reference(s, v, src, 'rad', wl, p, sigma, diffs, mv)


def requests():
    sp = [SP.Setup('r0', alpha.nested(2, 2, 0.5)), SP.Setup('r1', alpha.nested(2, 2, 0.4))]

    def music(*a):
        from doatools.performance.mse import ecov_music_1d
        return ecov_music_1d(*a)

    def coarray(*a):
        from doatools.performance.mse import ecov_coarray_music_1d
        return ecov_coarray_music_1d(*a)
    return PF.requests('requests', sp, {'music': music, 'coarray': coarray}, reference, TOL)


HARNESSES = [requests(), Tree('music-large', gen_music_large, run_music, bound={'quick': 4, 'thorough': None}), Tree('coarray-large', gen_coarray_large, run_coarray), Tree('music', gen_music, run_music), Tree('coarray', gen_coarray, run_coarray), Tree('bind', gen_bind, run_bind),
             Tree('music-scale', gen_music_scale, run_music), Tree('coarray-scale', gen_coarray_scale, run_coarray), Tree('music-typed', gen_music_typed, run_music), Tree('coarray-typed', gen_coarray_typed, run_coarray), Tree('music-units', gen_music_unit, run_music), Tree('coarray-units', gen_coarray_unit, run_coarray)]
