"""C03 derivatives of the steering matrix."""
import functools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Skip, Tree, require
from . import c02

ASSUMPTIONS = ['the reference derivative is a fourth-order central difference of the reference steering vector']


@functools.lru_cache(None)
def sources(thorough):
    sets = [[0.3], [-0.7, 0.2], [0.5, -0.1, 1.1], [-1.4, 0.0, 1.3], [0.0]]
    if thorough:
        sets += [[-1.5, -0.75, 0.25, 1.0], [1.52, -1.52], [1e-3, -1e-3], [0.6 * i - 1.3 for i in range(5)]]
    return [alpha.SourceSpec('ff1d', [ref.from_rad(v, u) for v in s], u) for s in sets for u in ('rad', 'deg', 'sin')]


def derivative(loc, s, unit, wl, perts):
    h = {'rad': 1e-3, 'deg': 0.05, 'sin': 1e-3 * (1 - s * s) if unit == 'sin' else 0}[unit]
    h /= max(1.0, 3.0 * float(np.max(np.abs(loc))) / wl / 5)        # the phase turns faster for large apertures
    f = lambda x: ref.steering(loc, 'ff1d', [x], unit, wl, perts)[0, :, 0]
    return ref.central_diff(f, s, h)


def gen(c):
    return (c.choose('array', c02.arrays(c.thorough)), c.choose('sources', sources(c.thorough)),
            c.choose('wavelength', [1.0, 0.37]), c.choose('perturbations', c02.configs(c.thorough)))


def run(sc, rec):
    sp, src, wl, cfg = sc
    a, perts, objs = c02.build(sp, cfg, None)
    s = src.make()
    for filt in ('all', 'known', 'none'):
        use = [(t, p) for t, p, k in perts if filt == 'all' or (filt == 'known' and k)]
        ret = a.steering_matrix(s, wl, True, filt)
        require(isinstance(ret, tuple) and len(ret) == 2, 'expected (A, D), got {}', type(ret))
        A, D = ret
        A0 = a.steering_matrix(s, wl, False, filt)
        require(A.shape == A0.shape and ref.close(A, A0, 1e-12), 'A with derivatives differs from A without')
        want = np.stack([derivative(sp.loc, v, src.unit, wl, use) for v in src.locs], axis=1)
        require(D.shape == want.shape, 'derivative shape {}', D.shape)
        scale = np.max(np.abs(want)) + 1e-12
        require(np.max(np.abs(D - want)) <= 2e-6 * scale + 1e-9, 'filter {}: derivative\n{}\nexpected\n{}', filt, D, want)
        rec.step(2)
        rec.state(np.round(want, 4))


def gen_rej(c):
    return (c.choose('array', c02.arrays(False)), c.choose('what', ['ff2d', 'nf2d', 's1', 'v2']),
            c.choose('unit', ['rad', 'deg', 'sin']), c.choose('filter', ['all', 'known', 'none']))


def run_rej(sc, rec):
    sp, what, unit, filt = sc
    from doatools.model import sources as S
    elem = None
    if what == 'ff2d':
        s = S.FarField2DSourcePlacement(np.array([[0.1, 0.2], [0.3, 0.4]]), 'deg' if unit == 'deg' else 'rad')
    elif what == 'nf2d':
        s = S.NearField2DSourcePlacement(np.array([[1.1, 2.2]]))
    else:
        s = S.FarField1DSourcePlacement(np.array([0.1, 0.2]), unit)
        elem = c02.element(int(what[1]))
    a = sp.make(element=elem) if elem is not None else sp.make()
    try:
        a.steering_matrix(s, 1.0, True, filt)
    except (ValueError, RuntimeError) as e:
        require(isinstance(e, ValueError) == (elem is None), 'wrong kind of error {!r}', e)
    else:
        require(False, 'derivatives of {} accepted', what)
    a.steering_matrix(s, 1.0, False, filt)
    rec.step(2)
    rec.state(what, unit, filt, sp.name)


# ------------------------------ perturbation types defined by the user
def gen_user(c):
    orders = [o for o in c02.user_orders(c.thorough) if 'clip' not in o]
    return c.choose('array', c02.USER_ARRAYS), c.choose('types', orders), c.choose('known', ['none', 'first', 'all but first']), \
        c.choose('sources', [('rad', [0.3, -0.7]), ('deg', [17.0, -40.0, 71.0]), ('sin', [0.29, -0.6])])


def run_user(sc, rec):
    sp, order, known, (u, x) = sc
    types = c02.user_types()
    flags = [known == 'first' and i == 0 or known == 'all but first' and i > 0 for i in range(len(order))]
    a = sp.make(perturbations=[types[t][0](sp.size, k) for t, k in zip(order, flags)])
    s = alpha.SourceSpec('ff1d', x, u).make()
    for filt in ('all', 'known', 'none'):
        use = [types[t] for t, k in zip(order, flags) if filt == 'all' or filt == 'known' and k]
        loc = sp.loc
        for _, par, f, _ in use:
            loc = f(loc, par(sp.size))
        A, D = ref.steering(loc, 'ff1d', x, u, 0.9, [])[0], np.stack([derivative(loc, v, u, 0.9, []) for v in x], axis=1)
        for _, par, _, f in use:
            A, D = f(A, par(sp.size)), f(D, par(sp.size))
        B, E = a.steering_matrix(s, 0.9, True, filt)
        require(ref.close(B, A, 1e-9), '{} filter {}: steering matrix\n{}\nexpected\n{}', order, filt, B, A)
        require(E.shape == D.shape and np.max(np.abs(E - D)) <= 2e-6 * np.max(np.abs(D)) + 1e-9, '{} filter {}: derivative\n{}\nexpected\n{}', order, filt, E, D)
        rec.step()
    rec.state(sp.name, order, known, u)


# ------------------------------------------ degenerate geometries and scales
def gen_geo(c):
    u = c.choose('unit', ['rad', 'deg', 'sin'])
    return c.choose('array', alpha.degenerate_arrays()), u, c.choose('sources', [[0.3, -0.7], [0.0], [1.2, -1.3, 0.1]]), c.choose('scale', [1.0, 1e-9, 1e9]), \
        c.choose('perturbations', [(), (('location_errors', 1),), (('location_errors', 2),), (('phase_errors', 0), ('mutual_coupling', 0))])


def run_geo(sc, rec):
    from doatools.model.arrays import ArrayDesign
    sp, u, src, scale, perts = sc
    loc, wl = sp.loc * scale, 0.8 * scale
    use = []
    for t, v in perts:
        p = alpha.pert_params(t, sp.size, v)
        use.append((t, p * scale if t == 'location_errors' else p))
    a = ArrayDesign(loc.copy(), 'x', perturbations=[alpha.pert_class(t)(p.copy(), True) for t, p in use])
    x = [ref.from_rad(v, u) for v in src]
    A, D = a.steering_matrix(alpha.SourceSpec('ff1d', x, u).make(), wl, True)
    want = np.stack([derivative(loc, v, u, wl, use) for v in x], axis=1)
    require(D.shape == want.shape and np.max(np.abs(D - want)) <= 2e-6 * np.max(np.abs(want)) + 1e-9, 'derivative\n{}\nexpected\n{}', D, want)
    require(ref.close(A, ref.steering(loc, 'ff1d', x, u, wl, use)[0], 1e-9), 'steering matrix')
    rec.step()
    rec.state(*sc)


# ----------------------------- special parameters, sources close to endfire
SPECIAL_SRC = [('rad', [0.3, -0.7]), ('deg', [17.0, -40.0]), ('sin', [0.29, -0.6]), ('rad', [math.pi / 2, -math.pi / 2]), ('deg', [90.0, 0.0, -90.0]), ('sin', [0.999, -0.9999]), ('rad', [1.5707, -1.57, 1e-9]),
               ('deg', [89.99, -89.9, 1e-7]), ('sin', [0.0, 1e-10])]


def gen_special(c):
    sp = c.choose('array', c02.SPECIAL_ARRAYS)
    t = c.choose('type', alpha.PTYPES)
    v = c.choose('parameters', c02.special_params(t, sp.size))
    other = c.choose('with', [None] + [q for q in alpha.PTYPES if q != t])
    return sp, t, v, other, c.choose('first', [True, False]) if other else True, c.choose('sources', SPECIAL_SRC)


def run_special(sc, rec):
    sp, t, (name, par), other, first, (u, x) = sc
    objs = [alpha.pert_class(t)(par, True)]
    use = [(t, np.array(par))]
    if other:
        q = alpha.pert_params(other, sp.size, 0)
        objs.insert(len(objs) if first else 0, alpha.pert_class(other)(q.copy(), False))
        use.insert(len(use) if first else 0, (other, q))
    a = sp.make(perturbations=objs)
    s = alpha.SourceSpec('ff1d', x, u).make()
    for filt in ('all', 'known', 'none'):
        w = {'all': use, 'known': [y for y in use if y[0] == t], 'none': []}[filt]
        A, D = a.steering_matrix(s, 0.9, True, filt)
        require(ref.close(A, ref.steering(sp.loc, 'ff1d', x, u, 0.9, w)[0], 1e-8), 'filter {}: steering matrix', filt)
        want = np.stack([derivative(sp.loc, v, u, 0.9, w) for v in x], axis=1)
        require(D.shape == want.shape and np.all(np.abs(D - want) <= 2e-6 * np.max(np.abs(want), axis=0) + 1e-9), 'filter {}: derivative\n{}\nexpected\n{}', filt, D, want)
        rec.step()
    rec.state(sp.name, t, name, other, first, u, x)


# ----------------- as close to endfire as doubles allow (exact derivatives)
def gen_end(c):
    sp = c.choose('array', c02.SPECIAL_ARRAYS + c02.USER_ARRAYS + [alpha.uca(4, 0.5)])
    return sp, c.choose('unit', ['rad', 'deg', 'sin']), c.choose('distance', [10.0 ** -e for e in range(1, 9)]), c.choose('side', [1, -1]), \
        c.choose('perturbations', [(), (('location_errors', 1),), (('gain_errors', 0), ('mutual_coupling', 0))]), c.choose('wavelength', [0.9, 2])


def run_end(sc, rec):
    sp, u, d, side, perts, wl = sc
    x = side * ({'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[u] - d)
    # sine, cosine and their derivatives, without cancellation
    if u == 'sin':
        sn, cs = x, math.sqrt((1 - x) * (1 + x))
        ds, dc = 1.0, -x / cs
    else:
        f = math.pi / 180 if u == 'deg' else 1.0
        sn, cs = math.sin(x * f), math.cos(x * f)
        ds, dc = cs * f, -sn * f
    use = [(t, alpha.pert_params(t, sp.size, v)) for t, v in perts]
    loc = sp.loc
    for t, p in use:
        if t == 'location_errors':
            loc = ref.add_location_errors(loc, p)
    w = 2 * math.pi / wl
    y = loc[:, 1] if loc.shape[1] > 1 else np.zeros(len(loc))
    A = np.exp(1j * w * (loc[:, 0] * sn + y * cs))
    D = 1j * w * (loc[:, 0] * ds + y * dc) * A
    for t, p in use:
        if t != 'location_errors':
            A, D = ref.apply_pert(t, p, A[:, None])[:, 0], ref.apply_pert(t, p, D[:, None])[:, 0]
    a = sp.make(perturbations=[alpha.pert_class(t)(p.copy(), True) for t, p in use])
    s = alpha.SourceSpec('ff1d', [x, 0.0], u).make()
    B, E = a.steering_matrix(s, wl, True)
    require(ref.close(B[:, 0], A, 1e-7), 'steering matrix {} expected {}', B[:, 0], A)
    require(np.max(np.abs(E[:, 0] - D)) <= 1e-6 * np.max(np.abs(D)) + 1e-9, '{} {}: derivative {} expected {}', x, u, E[:, 0], D)
    rec.step()
    rec.state(sp.name, u, d, side, perts, wl)


# -------------------------------------------------- many sensors and sources
def gen_large(c):
    sp = c.choose('array', alpha.large_arrays(64 if c.thorough else 27))
    return sp, c.choose('unit', ['rad', 'deg', 'sin']), c.choose('k', [8, 30] if c.thorough else [7, 14]), c.choose('config', ['plain', 'all', 'loc', 'coupling'])


def run_large(sc, rec):
    sp, u, k, cfg = sc
    perts = {'all': [('gain_errors', 0, False), ('location_errors', 1, True), ('phase_errors', 1, False)], 'loc': [('location_errors', 2, False)],
             'coupling': [('phase_errors', 0, True), ('mutual_coupling', 0, True)]}.get(cfg, [])
    perts = [(t, alpha.pert_params(t, sp.size, v), kn) for t, v, kn in perts]
    if cfg == 'coupling' and sp.size > 20:
        raise Skip()
    a = sp.make(perturbations=[alpha.pert_class(t)(p.copy(), kn) for t, p, kn in perts])
    x = [min(max(v, -0.97), 0.97) if u == 'sin' else v for v in alpha.many_sources('ff1d', u, k)]
    A, D = a.steering_matrix(alpha.SourceSpec('ff1d', x, u).make(), 0.9, True)
    use = [(t, p) for t, p, _ in perts]
    require(ref.close(A, ref.steering(sp.loc, 'ff1d', x, u, 0.9, use)[0], 1e-9), 'steering matrix')
    want = np.stack([derivative(sp.loc, v, u, 0.9, use) for v in x], axis=1)
    sc_ = np.max(np.abs(want), axis=0)
    require(D.shape == want.shape and np.all(np.abs(D - want) <= 1e-5 * sc_ + 1e-9), '{} sensors, {} sources: largest error {}', sp.size, k,
            np.max(np.abs(D - want) / sc_) if D.shape == want.shape else D.shape)
    rec.step()
    rec.state(*sc)


# ------------------------------------------------------- request histories
HIST_ARRAYS = [alpha.ula(3, 0.5), alpha.custom('h1', [[0.0], [0.7], [-0.4]])]
HIST_PERTS = [('location_errors', 1, True), ('gain_errors', 0, False), ('mutual_coupling', 0, True)]
HIST_SRC = {'rad': ([0.3, -0.7, 1.1], [-0.2, 0.3, 0.9]), 'deg': ([20.0, -40.0, 65.0], [-20.0, 10.0, 44.0]), 'sin': ([0.3, -0.6, 0.8], [-0.2, 0.1, 0.85])}


def make_hist(unit):
    x0, x1 = HIST_SRC[unit]
    ops = [('query', w, f, wl, True) for w in (0, 1) for f, wl in (('all', 1.0), ('known', 1.0), ('none', 0.6))]
    ops += [('query', 0, 'all', 0.6, True), ('query', 0, 'all', 1.0, False), ('move', 0), ('move', 1), ('reverse', 0), ('array',), ('gain',)]

    def run(hist, rec):
        real, perts = [], []
        for sp, ps in zip(HIST_ARRAYS, (HIST_PERTS, [])):
            pp = [(t, alpha.pert_params(t, sp.size, v), k) for t, v, k in ps]
            real.append(sp.make(perturbations=[alpha.pert_class(t)(p.copy(), k) for t, p, k in pp]))
            perts.append(pp)
        models = [list(x0), list(x1)]
        srcs = [alpha.SourceSpec('ff1d', m, unit).make() for m in models]
        cur = 0
        for e in hist:
            if e[0] == 'query':
                sp, use = HIST_ARRAYS[cur], [(t, p) for t, p, k in perts[cur] if e[2] == 'all' or e[2] == 'known' and k]
                got = real[cur].steering_matrix(srcs[e[1]], e[3], e[4], e[2])
                A = got[0] if e[4] else got
                want = ref.steering(sp.loc, 'ff1d', models[e[1]], unit, e[3], use)[0]
                require(ref.close(A, want, 1e-9), '{} after {}: steering matrix\n{}\nexpected\n{}', e, hist, A, want)
                if e[4]:
                    want = np.stack([derivative(sp.loc, v, unit, e[3], use) for v in models[e[1]]], axis=1)
                    require(got[1].shape == want.shape and np.max(np.abs(got[1] - want)) <= 2e-6 * np.max(np.abs(want)) + 1e-9,
                            '{} after {}: derivative\n{}\nexpected\n{}', e, hist, got[1], want)
                    got[1][:] = 0.0
                A[:] = 0.0
            elif e[0] == 'move':
                s, m = srcs[e[1]], models[e[1]]
                s.locations[0] = s.locations[0] * 0.5 + 0.01
                m[0] = m[0] * 0.5 + 0.01
            elif e[0] == 'reverse':
                s, m = srcs[e[1]], models[e[1]]
                s.locations[:] = s.locations[::-1].copy()
                m.reverse()
            elif e[0] == 'array':
                cur = 1 - cur
            elif e[0] == 'gain':
                p = alpha.pert_params('gain_errors', 3, 1)
                real[cur] = real[cur].get_perturbed_copy({'gain_errors': (p.copy(), True)})
                if any(q[0] == 'gain_errors' for q in perts[cur]):
                    perts[cur] = [(t, p, True) if t == 'gain_errors' else (t, v, k) for t, v, k in perts[cur]]
                else:
                    perts[cur] = perts[cur] + [('gain_errors', p, True)]
            rec.step()
        return list(hist), ops
    return run


HARNESSES = [Tree('derivatives', gen, run), Tree('geometries', gen_geo, run_geo), Tree('special', gen_special, run_special), Tree('large', gen_large, run_large), Tree('user types', gen_user, run_user), Tree('endfire', gen_end, run_end), Tree('rejected', gen_rej, run_rej)] + \
    [Graph('requests-' + u, make_hist(u), {'quick': 4, 'thorough': 5}) for u in HIST_SRC]
