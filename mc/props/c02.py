"""C02 steering matrices."""
import functools
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Skip, Tree, require

ASSUMPTIONS = ['element responses are evaluated on a fixed family of smooth direction- and range-dependent functions']


def response(n):
    """Direction- and range-dependent gains of an n-output sensor (math floats)."""
    def f(r, az, el):
        d = 0.0 if math.isinf(r) else math.exp(-r)
        return [1.0 + 0.3 * math.cos(az + l) * math.cos(el) + 0.2 * math.sin(el) + 0.1 * d * (l + 1) for l in range(n)]
    return f


def element(n):
    from doatools.model.array_elements import CustomNonisotropicSensor

    def f(r, az, el, p):
        d = np.exp(-r)
        out = [1.0 + 0.3 * np.cos(az + l) * np.cos(el) + 0.2 * np.sin(el) + 0.1 * d * (l + 1) for l in range(n)]
        return out[0] if n == 1 else np.stack(out)
    return CustomNonisotropicSensor(f, output_size=n)


@functools.lru_cache(None)
def arrays(thorough):
    return alpha.steering_arrays(thorough)


@functools.lru_cache(None)
def sources(thorough):
    out = alpha.source_specs(thorough)
    for u in ('rad', 'deg', 'sin'):      # endpoints of the valid range, broadside
        e = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[u]
        out.append(alpha.SourceSpec('ff1d', [-e, 0.0, e], u))
    for u in ('rad', 'deg'):
        e = {'rad': math.pi, 'deg': 180.0}[u]
        out.append(alpha.SourceSpec('ff2d', [[-e, -e / 2], [e, e / 2], [0.0, 0.0]], u))
    if thorough:
        for k in (4, 5):
            for u in ('rad', 'deg', 'sin'):
                out.append(alpha.SourceSpec('ff1d', [ref.from_rad(-1.2 + 0.55 * i, u) for i in range(k)], u))
        out.append(alpha.SourceSpec('nf2d', [[0.3, -8.0], [100.0, 40.0], [-0.2, 0.4], [5.0, 0.0]], 'm'))
        out.append(alpha.SourceSpec('nf2d', [[1, 2], [3, -4]], 'm'))
    return out


L, G, P, C = alpha.PTYPES


@functools.lru_cache(None)
def configs(thorough):
    """(name, ordered [(type, variant, known)], how)"""
    out = [('none', [], 'list')]
    for t in alpha.PTYPES:
        for kn in (True, False):
            out.append(('%s-%d' % (t, kn), [(t, 0, kn)], 'list'))
    for v in (1, 2):
        out.append(('loc%dd' % (v + 1), [(L, v, True)], 'list'))
    out.append(('cg', [(C, 0, True), (G, 1, False)], 'list'))
    out.append(('gc', [(G, 1, False), (C, 0, True)], 'list'))
    out.append(('pcl-dict', [(P, 0, True), (C, 1, False), (L, 2, True)], 'dict'))
    out.append(('all', [(L, 1, True), (G, 0, False), (P, 0, True), (C, 0, False)], 'dict'))
    out.append(('all-rev', [(C, 0, True), (P, 1, True), (G, 0, False), (L, 2, False)], 'list'))
    out.append(('known-cg', [(C, 0, True), (G, 1, True)], 'list'))
    out.append(('known-gc', [(G, 1, True), (C, 0, True)], 'list'))
    out.append(('known-pc', [(P, 1, True), (C, 0, True), (G, 2, False)], 'dict'))
    out.append(('known-cpg', [(C, 1, True), (P, 1, True), (G, 2, True)], 'list'))
    out.append(('known-pcgl', [(P, 1, True), (C, 2, True), (G, 2, True), (L, 0, True)], 'dict'))
    out.append(('copy-known', [(G, 0, True), (C, 0, True), (P, 1, True)], 'copy'))
    out.append(('copy', [(C, 0, True), (G, 0, False), (L, 1, True)], 'copy'))
    out.append(('small', [(L, 'small', True), (C, 'small', True), (G, 'small', False)], 'list'))
    out.append(('small-phase', [(P, 'small', True), (C, 'small', False)], 'dict'))
    # flags that are true or false without being True or False
    out.append(('numpy-flags', [(G, 0, np.bool_(True)), (P, 1, np.bool_(False)), (L, 0, np.bool_(True))], 'dict'))
    out.append(('integer-flags', [(C, 0, 1), (P, 1, 0)], 'list'))
    if thorough:
        for order in itertools.permutations(alpha.PTYPES):
            for mask in range(16):
                out.append(('perm', [(t, (i + mask) % 3, bool(mask >> i & 1)) for i, t in enumerate(order)], 'list'))
    return out


def build(sp, cfg, elem):
    kw = {}
    if elem is not None:
        kw['element'] = elem
    perts = [(t, alpha.pert_params(t, sp.size, v), k) for t, v, k in cfg[1]]
    objs = {t: (p.copy(), k) for t, p, k in perts}
    if cfg[2] == 'dict':
        a = sp.make(perturbations={t: v for t, v in objs.items()}, **kw)
    elif cfg[2] == 'list':
        a = sp.make(perturbations=[alpha.pert_class(t)(*objs[t]) for t, _, _ in perts], **kw)
    else:
        a = sp.make(**kw)
        for t, _, _ in perts:
            a = a.get_perturbed_copy({t: objs[t]})
    return a, perts, objs


def gen(c):
    sp = c.choose('array', arrays(c.thorough))
    src = c.choose('sources', sources(c.thorough))
    wl = c.choose('wavelength', [1.0, 0.37])
    cfg = c.choose('perturbations', configs(c.thorough))
    elem = c.choose('element', ['iso', 's1', 'v2', 'v3'])
    return sp, src, wl, cfg, elem


def run(sc, rec):
    sp, src, wl, cfg, elem = sc
    n = {'iso': 0, 's1': 1, 'v2': 2, 'v3': 3}[elem]
    if n > 1 and any(t != L for t, _, _ in cfg[1]):
        raise Skip()
    a, perts, objs = build(sp, cfg, element(n) if n else None)
    s = src.make()
    s_loc = np.array(s.locations, copy=True)
    for filt in ('all', 'known', 'none', None):
        use = [(t, p) for t, p, k in perts if filt in ('all', None) or (filt == 'known' and k)]
        want = ref.steering(sp.loc, src.kind, src.locs, src.unit, wl, use, response(n) if n else None)
        kw = {} if filt is None else {'perturbations': filt}
        got = a.steering_matrix(s, wl, **kw)
        flat = want.reshape(-1, want.shape[2])
        require(got.shape == flat.shape, '{}: shape {} expected {}', filt, got.shape, flat.shape)
        require(ref.close(got, flat, 1e-9), 'filter {}: steering matrix\n{}\nexpected\n{}', filt, got, flat)
        rec.step()
        got2 = a.steering_matrix(s, wl, flatten=False, **kw)
        w2 = want if n > 1 else want[0]
        require(ref.close(got2, w2, 1e-9), 'filter {} flatten=False:\n{}\nexpected\n{}', filt, got2, w2)
        rec.step()
        rec.state(flat)
    require(np.array_equal(s.locations, s_loc), 'sources modified')
    for t, p, k in perts:
        require(np.array_equal(objs[t][0], p), 'parameters of {} modified', t)
    require(ref.close(a.element_locations, sp.loc, 0 if sp.custom else 1e-12), 'element locations modified')


# ------------------------------------------ degenerate geometries and scales
GEO_SRC = [('ff1d', [0.3, -0.7], 'rad'), ('ff1d', [17.0, -40.0, 90.0], 'deg'), ('ff1d', [0.29, -0.6, -1.0], 'sin'),
           ('ff2d', [[0.5, 0.7], [-2.5, -0.4]], 'rad'), ('ff2d', [[30.0, 40.0], [-140.0, 0.0], [10.0, -90.0]], 'deg'), ('nf2d', [[3.0, 4.0], [-5.0, 2.0]], 'm')]


def gen_geo(c):
    return c.choose('array', alpha.degenerate_arrays()), c.choose('sources', GEO_SRC), c.choose('scale', [1.0, 1e-9, 1e9]), \
        c.choose('perturbations', [(), ((L, 1),), ((L, 2),), ((G, 0), (C, 0))]), c.choose('element', [0, 1, 2])


def run_geo(sc, rec):
    from doatools.model.arrays import ArrayDesign
    sp, (kind, locs, unit), scale, perts, n = sc
    if n == 2 and any(t != L for t, _ in perts):
        raise Skip()
    if n and scale != 1.0 and kind == 'nf2d':
        raise Skip()        # the element response depends on the range
    loc = sp.loc * scale
    wl = 0.8 * scale
    x = (np.array(locs) * scale).tolist() if kind == 'nf2d' else locs
    use = []
    for t, v in perts:
        p = alpha.pert_params(t, sp.size, v)
        use.append((t, p * scale if t == L else p))
    kw = {'element': element(n)} if n else {}
    a = ArrayDesign(loc.copy(), 'x', perturbations=[alpha.pert_class(t)(p.copy(), True) for t, p in use], **kw)
    want = ref.steering(loc, kind, x, unit, wl, use, response(n) if n else None)
    got = a.steering_matrix(alpha.SourceSpec(kind, x, unit).make(), wl)
    require(ref.close(got, want.reshape(-1, want.shape[2]), 1e-9), 'steering matrix\n{}\nexpected\n{}', got, want)
    rec.step()
    rec.state(sp.name, kind, unit, scale, perts, n)


# ------------------------------------------- sparse and special parameters
def special_params(t, n):
    """(name, parameters as handed over) for an array of n elements"""
    out = []
    if t == L:
        for d in (1, 2, 3):
            for mask in itertools.product((0, 1), repeat=d):
                out.append(('cols%r' % (mask,), 0.2 * ref.generic(n, d, 5, False) * np.array(mask)))
            one = np.zeros((n, d))
            one[-1, -1] = 0.3
            out += [('last%d' % d, one), ('same%d' % d, np.full((n, d), 0.17)), ('ints%d' % d, np.array([[(i * j + i) % 3 - 1 for j in range(d)] for i in range(n)]))]
        return out
    if t in (G, P):
        one = np.zeros(n)
        one[n // 2] = 0.4
        out = [('zero', np.zeros(n)), ('one', one), ('same', np.full(n, -0.3)), ('list', one.tolist()), ('ints', [(i % 3) - 1 for i in range(n)]), ('int array', np.array([(i * i) % 4 - 1 for i in range(n)]))]
        out += [('dead', np.array([-1.0] + [0.1] * (n - 1))), ('inverted', np.full(n, -2.0)), ('large', np.array([50.0 * (i + 1) for i in range(n)]))] if t == G else \
            [('turns', 2 * math.pi * np.arange(n)), ('pi', np.full(n, math.pi)), ('many turns', 100.0 * (1 + np.arange(n)))]
        return out
    X = ref.generic(n, n, 2)
    i, j = np.indices((n, n))
    return [('identity', np.eye(n)), ('int identity', np.eye(n, dtype=int)), ('diagonal', np.diag(np.diag(X))), ('real', X.real.copy()), ('imaginary', 1j * X.imag), ('lower', np.tril(X)), ('upper', np.triu(X)),
            ('band', np.where(abs(i - j) <= 1, X, 0)), ('toeplitz', 0.5 ** abs(i - j)), ('permutation', np.eye(n)[::-1].copy()), ('zero', np.zeros((n, n))), ('rank one', np.outer(X[:, 0], X[:, -1])),
            ('symmetric', X + X.T), ('hermitian', X + X.conj().T), ('list', X.real.tolist()), ('fortran', np.asfortranarray(X)), ('one entry', np.eye(n) + 0.3 * (i == 0) * (j == n - 1))]


SPECIAL_ARRAYS = [alpha.ula(3, 0.5), alpha.ura(2, 2, 0.4), alpha.custom('s3d', [[0.1, 0.2, 0.3], [0.6, -0.1, 0.2], [-0.3, 0.4, -0.5]]), alpha.custom('s1', [0.3], True),
                  alpha.custom('s2col', [[0.0, 0.3], [0.0, -0.2], [0.0, 0.9]])]


def gen_special(c):
    sp = c.choose('array', SPECIAL_ARRAYS)
    t = c.choose('type', alpha.PTYPES)
    v = c.choose('parameters', special_params(t, sp.size))
    other = c.choose('with', [None] + [q for q in alpha.PTYPES if q != t])
    return sp, t, v, other, c.choose('first', [True, False]) if other else True, c.choose('sources', GEO_SRC)


def run_special(sc, rec):
    sp, t, (name, par), other, first, (kind, locs, unit) = sc
    objs = [alpha.pert_class(t)(par, True)]
    use = [(t, np.array(par))]
    if other:
        q = alpha.pert_params(other, sp.size, 0)
        objs.insert(len(objs) if first else 0, alpha.pert_class(other)(q.copy(), False))
        use.insert(len(use) if first else 0, (other, q))
    a = sp.make(perturbations=objs)
    s = alpha.SourceSpec(kind, locs, unit).make()
    for filt in ('all', 'known', 'none'):
        u = {'all': use, 'known': [x for x in use if x[0] == t], 'none': []}[filt]
        want = ref.steering(sp.loc, kind, locs, unit, 0.9, u, None)[0]
        got = a.steering_matrix(s, 0.9, perturbations=filt)
        require(ref.close(got, want, 1e-8), 'filter {}: steering matrix\n{}\nexpected\n{}', filt, got, want)
        rec.step()
    act = sp.loc
    for q, v in use:
        if q == L:
            act = ref.add_location_errors(act, v)
    require(a.actual_ndim == act.shape[1] and ref.close(np.asarray(a.actual_element_locations, dtype=float), act, 1e-12), 'actual locations {} expected {}', a.actual_element_locations, act)
    rec.state(sp.name, t, name, other, first, kind, unit)


# -------------------------------------------------- many sensors and sources
def gen_large(c):
    sp = c.choose('array', alpha.large_arrays(64 if c.thorough else 36) + [alpha.ula(65, 0.5), alpha.ula(130, 0.37)])
    kind, unit = c.choose('kind', [('ff1d', 'rad'), ('ff1d', 'deg'), ('ff1d', 'sin'), ('ff2d', 'rad'), ('ff2d', 'deg'), ('nf2d', 'm')])
    return sp, kind, unit, c.choose('k', [8, 40, 130] if c.thorough else [9, 40]), c.choose('config', ['plain', 'all', 'vec5', 'vec4', 'scalar+phase'])


def run_large(sc, rec):
    sp, kind, unit, k, cfg = sc
    n = {'vec5': 5, 'vec4': 4, 'scalar+phase': 1}.get(cfg, 0)
    perts = {'all': [(G, 0, False), (L, 2, True), (C, 0, True), (P, 1, False)], 'vec4': [(L, 1, True)], 'scalar+phase': [(P, 0, True)]}.get(cfg, [])
    perts = [(t, alpha.pert_params(t, sp.size, v), kn) for t, v, kn in perts]
    kw = {'element': element(n)} if n else {}
    a = sp.make(perturbations=[alpha.pert_class(t)(p.copy(), kn) for t, p, kn in perts], **kw)
    locs = alpha.many_sources(kind, unit, k)
    s = alpha.SourceSpec(kind, locs, unit).make()
    for filt in ('all', 'known'):
        use = [(t, p) for t, p, kn in perts if filt == 'all' or kn]
        want = ref.steering(sp.loc, kind, locs, unit, 0.9, use, response(n) if n else None)
        got = a.steering_matrix(s, 0.9, perturbations=filt)
        require(ref.close(got, want.reshape(-1, k), 1e-9), '{} sensors, {} sources, filter {}: largest error {}', sp.size, k, filt,
                np.max(np.abs(got - want.reshape(-1, k))) if got.shape == want.reshape(-1, k).shape else got.shape)
        rec.step()
        if not any(not kn for _, _, kn in perts):
            break
    if n > 1:
        got = a.steering_matrix(s, 0.9, flatten=False)
        require(ref.close(got, want, 1e-9), 'tensor of {} outputs, {} sensors, {} sources', n, sp.size, k)
    rec.state(*sc)


# ------------------------------------- near-field sources at every range
RANGES = [1e-6, 1e-3, 0.05, 0.4, 2.0, 30.0, 400.0, 1.7e3, 2.5e4]


def gen_range(c):
    sp = c.choose('array', SPECIAL_ARRAYS + [alpha.ula(9, 0.5), alpha.custom('wide', [[0.0, 0.0], [40.0, -3.0], [7.0, 25.0]])])
    r = [c.choose('range %d' % i, RANGES) for i in range(2)]
    return sp, r, c.choose('wavelength', [0.004, 0.9, 60.0]), c.choose('directions', [(0.0, 0.9), (1.3, -0.4), (-2.8, 1.5707963)]), c.choose('order', [1, -1])


def run_range(sc, rec):
    sp, r, wl, az, o = sc
    x = [[ri * math.sin(t) + (0.013 if ri < 1 else 0.0), ri * math.cos(t)] for ri, t in zip(r, az)][::o]
    a = sp.make()
    want = ref.steering(sp.loc, 'nf2d', x, 'm', wl, [], None)[0]
    got = a.steering_matrix(alpha.SourceSpec('nf2d', x, 'm').make(), wl)
    # 16 digits of the longest path, in radians
    tol = max(1e-9, 4e-15 * 2 * math.pi * (max(r) + 50.0) / wl)
    require(ref.close(got, want, tol), 'sources at {} m, wavelength {}: steering matrix\n{}\nexpected\n{}', r, wl, got, want)
    rec.step()
    rec.state(sp.name, r, wl, az, o)


# ------------------------------------------------------- request histories
HIST_ARRAYS = [alpha.ula(3, 0.5), alpha.custom('h2', [[0.0, 0.1], [0.5, -0.2], [0.2, 0.7]])]
HIST_PERTS = [(L, 1, True), (G, 0, False), (C, 0, True)]
HIST_SRC = {'ff1d': ('rad', [0.3, -0.7, 1.1], [-0.2, 0.3, 0.9]), 'ff2d': ('deg', [[20.0, 30.0], [-100.0, 5.0], [60.0, 70.0]], [[-20.0, 30.0], [100.0, 15.0], [60.0, 20.0]]),
            'nf2d': ('m', [[3.0, 4.0], [-5.0, 2.0], [1.0, 1.5]], [[3.0, -4.0], [2.0, 2.5], [0.4, 6.0]])}


def make_hist(kind):
    unit, x0, x1 = HIST_SRC[kind]
    ops = [('query', w, f, wl) for w in (0, 1) for f, wl in (('all', 1.0), ('known', 1.0), ('none', 0.6))]
    ops += [('query', 0, 'all', 0.6), ('query', 0, 'known', 1.0, 'raw'), ('move', 0), ('move', 1), ('reverse', 0), ('array',), ('gain',)]

    def run(hist, rec):
        real, perts = [], []
        for sp, ps in zip(HIST_ARRAYS, (HIST_PERTS, [])):
            pp = [(t, alpha.pert_params(t, sp.size, v), k) for t, v, k in ps]
            real.append(sp.make(perturbations=[alpha.pert_class(t)(p.copy(), k) for t, p, k in pp], element=element(1)))
            perts.append(pp)
        models = [[list(v) if isinstance(v, list) else v for v in x] for x in (x0, x1)]
        srcs = [alpha.SourceSpec(kind, m, unit).make() for m in models]
        cur = 0
        for e in hist:
            if e[0] == 'query':
                sp, use = HIST_ARRAYS[cur], [(t, p) for t, p, k in perts[cur] if e[2] == 'all' or e[2] == 'known' and k]
                want = ref.steering(sp.loc, kind, models[e[1]], unit, e[3], use, response(1))[0]
                got = real[cur].steering_matrix(srcs[e[1]], e[3], perturbations=e[2], flatten=len(e) < 5)
                require(ref.close(got, want, 1e-9), '{} after {}: steering matrix\n{}\nexpected\n{}', e, hist, got, want)
                got *= 0.0
            elif e[0] == 'move':
                s, m = srcs[e[1]], models[e[1]]
                s.locations[0] = s.locations[0] * 0.5 + 0.01
                m[0] = [v * 0.5 + 0.01 for v in m[0]] if isinstance(m[0], list) else m[0] * 0.5 + 0.01
            elif e[0] == 'reverse':
                s, m = srcs[e[1]], models[e[1]]
                s.locations[:] = s.locations[::-1].copy()
                m.reverse()
            elif e[0] == 'array':
                cur = 1 - cur
            elif e[0] == 'gain':
                p = alpha.pert_params(G, 3, 1)
                real[cur] = real[cur].get_perturbed_copy({G: (p.copy(), True)})
                i = [j for j, q in enumerate(perts[cur]) if q[0] == G]
                perts[cur] = [(t, p, True) if t == G else (t, v, k) for t, v, k in perts[cur]] if i else perts[cur] + [(G, p, True)]
            rec.step()
        return list(hist), ops
    return run


# ------------------------------ perturbation types defined by the user
@functools.lru_cache(None)
def user_types():
    """name -> (factory of n sensors and known flag, effect on locations, effect on responses)"""
    from doatools.model import perturbations as PT

    class Turn(PT.ArrayPerturbation):           # turns the array in its first two dimensions
        def perturb_sensor_locations(self, locations):
            x = np.zeros((locations.shape[0], max(2, locations.shape[1])))
            x[:, :locations.shape[1]] = locations
            c, s = math.cos(self.params), math.sin(self.params)
            x[:, :2] = x[:, :2] @ np.array([[c, s], [-s, c]])
            return x

    class Stretch(PT.ArrayPerturbation):        # scales the array and attenuates its outputs
        def perturb_sensor_locations(self, locations):
            return locations * self.params

        def perturb_steering_matrix(self, A, DA):
            return A / self.params, [X / self.params for X in DA]

    class Taper(PT.GainErrors):                 # a second kind of gain errors
        pass

    class Clip(PT.ArrayPerturbation):           # not linear in the responses
        def perturb_steering_matrix(self, A, DA):
            f = lambda X: np.where(X.real > self.params, self.params, X.real) + 1j * X.imag
            return f(A), [f(X) for X in DA]

    def turn(loc, a):
        out = []
        for q in loc.tolist():
            q = q + [0.0] * (2 - len(q))
            out.append([math.cos(a) * q[0] - math.sin(a) * q[1], math.sin(a) * q[0] + math.cos(a) * q[1]] + q[2:])
        return np.array(out)
    clip = lambda A, c: np.array([[complex(min(x.real, c), x.imag) for x in row] for row in A.tolist()])
    same = lambda x, p: x
    std = lambda t, v: (lambda n, k: alpha.pert_class(t)(alpha.pert_params(t, n, v), k), lambda n: alpha.pert_params(t, n, v))
    out = {
        'turn': (lambda n, k: Turn(0.7, k), lambda n: 0.7, turn, same),
        'stretch': (lambda n, k: Stretch(1.25, k), lambda n: 1.25, lambda x, p: x * p, lambda A, p: A / p),
        'taper': (lambda n, k: Taper(alpha.pert_params(G, n, 1), k), lambda n: alpha.pert_params(G, n, 1), same, lambda A, p: A * (1 + p[:, None])),
        'clip': (lambda n, k: Clip(0.4, k), lambda n: 0.4, same, clip),
        'gain': std(G, 0) + (same, lambda A, p: A * (1 + p[:, None])),
        'location': std(L, 1) + (ref.add_location_errors, same),
        'coupling': std(C, 0) + (same, lambda A, p: p @ A),
    }
    return out


USER_ARRAYS = [alpha.ula(3, 0.5), alpha.ura(2, 2, 0.4), alpha.custom('u3d', [[0.1, 0.2, 0.3], [0.6, -0.1, 0.2], [-0.3, 0.4, -0.5]])]
USER_TYPES = ['turn', 'stretch', 'taper', 'clip', 'gain', 'location', 'coupling']


def user_orders(thorough):
    return [o for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)) for o in itertools.permutations(USER_TYPES, n) if set(o) & {'turn', 'stretch', 'taper', 'clip'}]


def gen_user(c):
    return c.choose('array', USER_ARRAYS), c.choose('types', user_orders(c.thorough)), c.choose('known', ['none', 'first', 'all but first']), \
        c.choose('how', ['list', 'copies']), c.choose('sources', GEO_SRC[::2])


def run_user(sc, rec):
    sp, order, known, how, (kind, locs, unit) = sc
    types = user_types()
    flags = [known == 'first' and i == 0 or known == 'all but first' and i > 0 for i in range(len(order))]
    objs = [types[t][0](sp.size, k) for t, k in zip(order, flags)]
    if how == 'list':
        a = sp.make(perturbations=objs)
    else:
        a = sp.make()
        for o in objs:
            a = a.get_perturbed_copy([o])
    got = a.perturbations
    require(len(got) == len(objs) and all(x is y or type(x) is type(y) for x, y in zip(got, objs)), 'perturbations {} expected {}', got, objs)
    s = alpha.SourceSpec(kind, locs, unit).make()
    for filt in ('all', 'known', 'none'):
        use = [types[t] for t, k in zip(order, flags) if filt == 'all' or filt == 'known' and k]
        loc = sp.loc
        for _, par, f, _ in use:
            loc = f(loc, par(sp.size))
        A = ref.steering(loc, kind, locs, unit, 0.9, [], None)[0]
        for _, par, _, f in use:
            A = f(A, par(sp.size))
        B = a.steering_matrix(s, 0.9, perturbations=filt)
        require(ref.close(B, A, 1e-9), '{} filter {}: steering matrix\n{}\nexpected\n{}', order, filt, B, A)
        rec.step()
        if filt == 'all':
            require(ref.close(a.actual_element_locations, loc, 1e-12), 'actual locations {} expected {}', a.actual_element_locations, loc)
    for t, o, k in zip(order, objs, flags):
        require(a.has_perturbation(type(o)) and a.is_perturbation_known(type(o)) == k, 'known flag of {}', t)
    # replacing the first type keeps all the others
    b = a.get_perturbed_copy([types[order[0]][0](sp.size, not flags[0])], 'b')
    require([type(x) for x in b.perturbations] == [type(x) for x in objs] and [bool(x.is_known) for x in b.perturbations] == [not flags[0]] + flags[1:], 'copy has {}', b.perturbations)
    rec.state(sp.name, order, known, how, kind)


# ------------------------------------------------------------ number types
DTS = ['float', 'int', 'float32', 'list', 'int list', 'int16', 'strided', 'reversed', 'readonly', 'fortran', 'complex']


def typed(x, dt):
    x = np.asarray(x)
    if dt == 'int' or dt == 'int list':
        x = np.round(x).astype(np.int64)
    elif dt == 'float32':
        x = np.round(x * 8).astype(np.float32) / np.float32(8)
    elif dt == 'int16':
        x = np.round(x).astype(np.int16)
    elif dt in alpha.LAYOUTS:
        return alpha.relayout(x, dt)
    return x.tolist() if 'list' in dt else x


def gen_dt(c):
    return (c.choose('array dims', [1, 2, 3]), c.choose('locations', DTS[:-1]), c.choose('error dims', [1, 2, 3]), c.choose('errors', DTS[:-1]),
            c.choose('sources', DTS[:-1]), c.choose('kind', ['ff1d', 'ff2d', 'nf2d']), c.choose('others', [None] + DTS), c.choose('wavelength', [4.7, 5, np.int64(4), np.float32(4.5)]))


def run_dt(sc, rec):
    from doatools.model.arrays import ArrayDesign
    from doatools.model import perturbations as PT
    d, ldt, ed, edt, sdt, kind, odt, wl = sc
    n = 3
    loc = typed(np.array([[0.0, 1.0, -2.0], [1.5, -0.75, 3.0], [-2.25, 2.0, 1.0]])[:, :d], ldt)
    err = typed(np.array([[1.0, -1.0, 2.0], [0.25, 2.0, -1.0], [-1.0, 0.5, 1.0]])[:, :ed], edt)
    unit = {'ff1d': 'deg', 'ff2d': 'deg', 'nf2d': 'm'}[kind]
    locs = typed({'ff1d': np.array([10.0, -35.0]), 'ff2d': np.array([[20.0, 30.0], [-100.0, 5.0]]), 'nf2d': np.array([[3.0, 4.0], [-5.0, 2.0]])}[kind], sdt)
    perts = [PT.LocationErrors(err, True)]
    use = [('location_errors', np.asarray(err, dtype=float))]
    if odt is not None:
        for cls, t, v in ((PT.GainErrors, 'gain_errors', [1.0, 2.0, -3.0]), (PT.PhaseErrors, 'phase_errors', [0.0, 1.0, 2.0]), (PT.MutualCoupling, 'mutual_coupling', [[1.0, 2.0, 0.0], [0.0, 1.0, 3.0], [1.0, 0.0, 2.0]])):
            v = typed(np.array(v), odt)
            if odt == 'complex' and t == 'mutual_coupling':
                v = alpha.relayout(v * (1 + 0.5j), 'fortran')
            perts.append(cls(v))
            use.append((t, np.asarray(v, dtype=complex if np.iscomplexobj(v) else float)))
    copies = [np.array(x, copy=True) for x in (loc, err, locs)]
    a = ArrayDesign(loc, 'x', perts)
    from doatools.model import sources as MS
    s = MS.NearField2DSourcePlacement(locs) if kind == 'nf2d' else (MS.FarField1DSourcePlacement if kind == 'ff1d' else MS.FarField2DSourcePlacement)(locs, unit)
    L0 = np.asarray(loc, dtype=float).reshape(n, d)
    k = max(d, ed)
    act = np.zeros((n, k))
    act[:, :d] += L0
    act[:, :ed] += np.asarray(err, dtype=float)
    require(a.actual_ndim == k and ref.close(np.asarray(a.actual_element_locations, dtype=float), act, 1e-6), 'actual locations {} expected {}', a.actual_element_locations, act)
    sl = np.asarray(locs, dtype=float).tolist()
    for filt in ('all', 'known', 'none'):
        u = {'all': use, 'known': use[:1], 'none': []}[filt]
        want = ref.steering(L0, kind, sl, unit, float(wl), u, None)
        got = a.steering_matrix(s, wl, perturbations=filt)
        require(ref.close(got, want.reshape(-1, want.shape[2]), 2e-5 if 'float32' in sc or 'int16' in sc or isinstance(wl, np.float32) else 1e-9), '{}: steering matrix {} expected {}', filt, got, want)
        rec.step()
    for x, c in zip((loc, err, locs), copies):
        require(np.array_equal(np.asarray(x), c), 'inputs modified')
    rec.state(*sc)


HARNESSES = [Tree('steering', gen, run), Tree('geometries', gen_geo, run_geo), Tree('special', gen_special, run_special), Tree('large', gen_large, run_large), Tree('ranges', gen_range, run_range), Tree('user types', gen_user, run_user), Tree('number types', gen_dt, run_dt, bound={'quick': 4, 'thorough': None})] + \
    [Graph('requests-' + k, make_hist(k), {'quick': 4, 'thorough': 5}) for k in HIST_SRC]
