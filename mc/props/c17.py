"""C17 Cramer-Rao bounds: inverse Fisher information from first principles."""
import numpy as np

from .. import alpha, ref
from .. import perf as PF
from .. import spectral as SP
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['locations, powers and noise for which the normalised Fisher information has an eigenvalue below 1e-7 are not identifiable and left open',
               'derivatives of the reference steering matrix by fourth order differences; agreement to 1e-5 of the largest entry']
TOL = 1e-5


def fim_sto(A, D, P, sigma):
    k = A.shape[1]
    R = A @ P @ A.conj().T + sigma * np.eye(len(A))
    dR = []
    for i in range(k):
        X = np.outer(D[:, i], (P @ A.conj().T)[i])
        dR.append(X + X.conj().T)
    for i in range(k):
        dR.append(np.outer(A[:, i], A[:, i].conj()).astype(complex))
        for j in range(i):
            X = np.outer(A[:, i], A[:, j].conj())
            dR.append(X + X.conj().T)
            dR.append(1j * X - 1j * X.conj().T)
    dR.append(np.eye(len(A), dtype=complex))
    return PF.slepian_bangs(R, dR)


def fim_stouc(A, D, p, sigma):
    k = A.shape[1]
    R = (A * p) @ A.conj().T + sigma * np.eye(len(A))
    dR = []
    for i in range(k):
        X = p[i] * np.outer(D[:, i], A[:, i].conj())
        dR.append(X + X.conj().T)
    for i in range(k):
        dR.append(np.outer(A[:, i], A[:, i].conj()))
    dR.append(np.eye(len(A), dtype=complex))
    return PF.slepian_bangs(R, dR)


def fim_det(A, D, P, sigma):
    """k snapshots whose source sample covariance is P; mean vec(A S)."""
    k = A.shape[1]
    w, V = np.linalg.eigh(P)
    S = np.sqrt(k) * V * np.sqrt(np.maximum(w, 0))
    cols = []
    for i in range(k):
        cols.append(np.outer(D[:, i], S[i]).ravel())
    for i in range(k):
        for t in range(k):
            for u in (1.0, 1j):
                E = np.zeros((k, k), dtype=complex)
                E[i, t] = u
                cols.append((A @ E).ravel())
    M = np.array(cols).T
    return 2.0 / sigma * (M.conj().T @ M).real, k


def fn(name):
    from doatools.performance import crb
    return getattr(crb, 'crb_%s_farfield_1d' % name)


def gen(name):
    def g(c):
        sp = c.choose('array', PF.arrays(c.thorough))
        pn, perts = c.choose('perturbations', PF.PERTS)
        unit = c.choose('unit', ['rad', 'deg', 'sin'])
        srcs = [s for s in PF.SRC if len(s) < sp.size] + (PF.MANY if name == 'stouc' and sp.name[0] in 'NC' else [])
        src = c.choose('sources', srcs)
        forms = {'sto': ['full', 'scalar', 'int', 'list', 'list-desc', 'mixed', 'ones', 'vector', 'diag', 'real-full', 'coherent', 'near-diag', 'near-real', 'near-equal', 'near-coherent'],
                 'stouc': ['vector', 'scalar', 'int', 'list', 'list-desc', 'mixed', 'ones', 'diag', 'full', 'real-full', 'near-equal', 'near-diag'],
                 'det': ['full', 'diag', 'real-full', 'coherent', 'near-diag', 'near-real', 'near-coherent']}[name]
        form = c.choose('p', forms)
        sigma = c.choose('sigma', [0.5, 0.02, 20.0] if c.thorough else [0.5, 0.02])
        wl = c.choose('wavelength', [1.0, 0.8])
        return name, SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, src, form, sigma, wl
    return g


def gen_scale(c):
    """Powers and noise in other physical units: the bounds do not change."""
    name = c.choose('bound', ['sto', 'det', 'stouc'])
    sp = c.choose('array', PF.arrays(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS[:2])
    src = c.choose('sources', [s for s in PF.SRC if len(s) < sp.size] + (PF.MANY if name == 'stouc' and sp.name[0] in 'NC' else []))
    form = c.choose('p', {'sto': ['full', 'scalar', 'list', 'coherent', 'near-far', 'far-near', 'near-far-full'],
                            'stouc': ['vector', 'scalar', 'full', 'near-far', 'far-near'], 'det': ['full', 'coherent', 'near-far-full']}[name])
    scale = c.choose('scale', [1.0, 1e-12, 1e-9, 1e-6, 1e-3, 1e4, 1e8, 1e12])
    return name, SP.Setup('%s/%s' % (sp.name, pn), sp, perts), c.choose('unit', ['rad', 'deg', 'sin']), src, form, c.choose('sigma', [0.5, 0.02]), 1.0, scale


def gen_unit(c):
    """Arrays and wavelengths in other units of length."""
    name = c.choose('bound', ['sto', 'det', 'stouc'])
    sp = c.choose('array', PF.arrays(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS)
    src = c.choose('sources', [s for s in PF.SRC if len(s) < sp.size] + (PF.MANY if name == 'stouc' and sp.name[0] in 'NC' else []))
    f = c.choose('unit of length', SP.UNITS)
    return name, SP.Setup('%s/%s' % (sp.name, pn), sp, perts).at(f), c.choose('unit', ['rad', 'deg', 'sin']), src, {'sto': 'full', 'stouc': 'vector', 'det': 'full'}[name], 0.5, f


def gen_typed(c):
    """Other types and memory layouts of the same arguments."""
    name = c.choose('bound', ['sto', 'det', 'stouc'])
    sp = c.choose('array', [a for a in PF.arrays(c.thorough) if a.size > 3])
    pn, perts = c.choose('perturbations', PF.PERTS[:2])
    how, unit, src = PF.typed_locations(c, sp.size - 1)
    form = c.choose('p', {'sto': ['full'] + PF.VEC_FORMS + PF.FULL_FORMS[1:], 'stouc': ['vector'] + PF.VEC_FORMS, 'det': ['full'] + PF.FULL_FORMS}[name] if how is None else ['full', 'int-full'])
    sigma = c.choose('sigma', [0.5, 1, np.int64(2), np.float32(0.25)])
    return name, SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, src, form, sigma, 1 if sigma == 1 else 1.0, None, how


def run(sc, rec):
    name, s, unit, src, form, sigma, wl = sc[:7]
    scale = sc[7] if len(sc) > 7 else None
    how = sc[8] if len(sc) > 8 else None
    k = len(src)
    locs = [ref.from_rad(v, unit) for v in src]
    spl, locs = alpha.typed_sources('ff1d', locs, unit, how)
    arg, P = PF.powers(k, form)
    A, D = PF.steer(s, locs, unit, wl), PF.dsteer(s, locs, unit, wl)
    base = 1
    if name == 'sto':
        F = fim_sto(A, D, P, sigma)
    elif name == 'stouc':
        F = fim_stouc(A, D, np.diag(P).real, sigma)
    else:
        F, base = fim_det(A, D, P, sigma)
    C = PF.inv_block(F, k)
    if C is None:
        rec.count('not identifiable')
        return
    C = C * base
    sp = spl
    arr = s.make()
    if scale is not None:
        arg = [v * scale for v in arg] if isinstance(arg, list) else arg * scale
        sigma = sigma * scale
    l0, arg0 = sp.locations.copy(), np.array(arg, copy=True)
    f = fn(name)
    full = f(arr, sp, wl, arg, sigma)
    rec.step()
    require(PF.close_rel(full, C, TOL), '{} bound {} expected {} (one snapshot)', name, np.asarray(full).tolist(), C.tolist())
    for n in (1, 7, 250, 10 ** 6):
        for mode in ('full', 'diag', 'mean_diag'):
            got = f(arr, sp, wl, arg, sigma, n, mode) if n == 7 else f(arr, sp, wl, arg, sigma, n_snapshots=n, return_mode=mode)
            rec.step()
            require(PF.close_rel(got, PF.reduce(C, mode) / n, TOL), '{} bound, {} snapshots, mode {}: {} expected {}', name, n, mode,
                    np.asarray(got).tolist(), (PF.reduce(C, mode) / n).tolist())
    require(np.array_equal(sp.locations, l0) and np.array_equal(np.array(arg), arg0), 'inputs modified')
    rec.count('more sources than sensors' if k >= s.size else 'fewer sources than sensors')
    rec.state(name, s.name, unit, src, form, float(sigma), wl, scale, how)


def gen_large(c):
    name = c.choose('bound', ['sto', 'det', 'stouc'])
    sp = c.choose('array', PF.large(c.thorough))
    pn, perts = c.choose('perturbations', PF.PERTS)
    ks = [k for k in (5, 6, 8, 1, 2, 11, 14) if k < sp.size and (k <= 8 or name != 'sto' or c.thorough)]
    if name == 'stouc' and sp.name[0] in 'NC':
        ks += [sp.size, sp.size + 3]
    k = c.choose('k', ks)
    form = c.choose('p', ['full', 'list', 'scalar'] if name == 'sto' else ['full', 'coherent'] if name == 'det' else ['vector', 'list-desc', 'full'])
    unit = c.choose('unit', ['rad', 'deg', 'sin'])
    return name, SP.Setup('%s/%s' % (sp.name, pn), sp, perts), unit, PF.spread(k), form, c.choose('sigma', [0.5, 40.0, 0.01]), 1.0


def reference(name, s, src, wl, P, sigma):
    A, D = PF.steer(s, src, 'rad', wl), PF.dsteer(s, src, 'rad', wl)
    k = len(src)
    if name == 'det':
        F, n = fim_det(A, D, P, sigma)
        return PF.inv_block(F, k) * n
    return PF.inv_block(fim_sto(A, D, P, sigma) if name == 'sto' else fim_stouc(A, D, np.diag(P).real, sigma), k)


def requests():
    from .. import alpha
    sp = [SP.Setup('r0', alpha.nested(2, 2, 0.5)), SP.Setup('r1', alpha.nested(2, 2, 0.4), PF.PERTS[1][1])]
    fns = {n: (lambda *a, n=n: fn(n)(*a)) for n in ('sto', 'det', 'stouc')}
    return PF.requests('requests', sp, fns, reference, TOL)


HARNESSES = [requests(), Tree('large', gen_large, run, bound={'quick': 4, 'thorough': None}), Tree('sto', gen('sto'), run), Tree('det', gen('det'), run), Tree('stouc', gen('stouc'), run), Tree('scale', gen_scale, run), Tree('typed', gen_typed, run), Tree('units of length', gen_unit, run)]
