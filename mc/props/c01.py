"""C01 array geometry, options, copies."""
import functools
import math
import warnings

import numpy as np

from .. import alpha, ref
from ..engine import Tree, require

ASSUMPTIONS = ['parameter tuples beyond the enumerated sizes follow the same formulas']


class _Elem:
    pass


def _element(kind):
    from doatools.model.array_elements import CustomNonisotropicSensor, ISOTROPIC_SCALAR_SENSOR
    if kind == 'default':
        return None, 1
    if kind == 'iso':
        return ISOTROPIC_SCALAR_SENSOR, 1
    if kind == 'scalar':
        return CustomNonisotropicSensor(lambda r, az, el, p: np.cos(az) + 2.0), 1
    n = int(kind[3:])
    return CustomNonisotropicSensor(lambda r, az, el, p: np.stack([np.cos(az + l) for l in range(n)]),
                                    output_size=n), n


@functools.lru_cache(None)
def specs(thorough):
    out = []
    N = 14 if thorough else 10
    d0s = [0.5, 0.3, 2.0]
    for d0 in d0s:
        for n in range(1, N + 1):
            out.append(alpha.ula(n, d0))
        for n1 in range(1, 7 if thorough else 5):
            for n2 in range(1, 7 if thorough else 5):
                out.append(alpha.nested(n1, n2, d0))
        for m in range(1, 8 if thorough else 6):
            for n in range(1, 8 if thorough else 6):
                if math.gcd(m, n) == 1:
                    for mode in ('2m', 'm', '2M', 'M'):
                        out.append(alpha.coprime(m, n, d0, mode))
    for n in range(1, 13 if thorough else 9):
        for r in (0.5, 1.7):
            out.append(alpha.uca(n, r))
    for m in range(1, 5):
        for n in range(1, 5):
            for d0 in (0.5, [0.4, 0.7], (1, 2), np.array([0.25, 0.5])):
                out.append(alpha.ura(m, n, d0))
    for n in range(1, 21):
        for d0 in d0s:
            out.append(alpha.mrla(n, d0))
    # sizes well beyond the small ones
    for n in (15, 16, 17, 20, 24, 31, 32, 33, 50, 64, 100, 128, 129):
        out.append(alpha.uca(n, 0.9))
        out.append(alpha.uca(n, 10.0))
        out.append(alpha.ula(n, 0.5))
        out.append(alpha.ula(n, 0.3))
    # every size up to 256 (rounding of angles and positions)
    for n in range(1, 513 if thorough else 257):
        out.append(alpha.uca(n, 1.0))
        out.append(alpha.ula(n, 0.1))
    for n1, n2 in ((5, 5), (6, 6), (8, 3), (3, 8), (1, 12), (12, 1), (7, 9), (10, 10), (16, 16)):
        out.append(alpha.nested(n1, n2, 0.5))
    for m, n in ((5, 6), (5, 7), (6, 7), (4, 9), (7, 8), (8, 9), (3, 10), (9, 11), (12, 13)):
        for mode in ('2m', 'm'):
            out.append(alpha.coprime(m, n, 0.5, mode))
            out.append(alpha.coprime(n, m, 0.3, mode))
    for m, n in ((5, 5), (1, 9), (9, 1), (6, 4), (8, 8), (10, 3), (16, 16)):
        for d0 in (0.5, [0.3, 0.6]):
            out.append(alpha.ura(m, n, d0))
    out += [
        alpha.grid_bases('oblique2d', [[0, 0], [1, 0], [0, 1], [2, -1]], [[0.5, 0.1], [0.2, 0.6]]),
        alpha.grid_bases('plane-in-3d', [[0, 0], [1, 0], [1, 2]], [[0.5, 0.1, 0.2], [0.0, 0.4, 0.3]]),
        alpha.grid_bases('line-in-2d', [[0], [1], [3]], [[0.3, 0.4]]),
        alpha.grid_bases('skew3d', [[0, 0, 0], [1, 0, 2], [0, -1, 1]], [[0.5, 0, 0.1], [0.1, 0.4, 0], [0, 0.2, 0.7]]),
        alpha.grid_bases('line1d', [[0], [1], [-4]], [[0.7]]),
        alpha.grid_d0('g1', [[0], [2], [3]], 0.5),
        alpha.grid_d0('g1l', [[0], [2], [3]], [0.5]),
        alpha.grid_d0('g2', [[0, 0], [2, 1], [3, -3]], 0.5),
        alpha.grid_d0('g2l', [[0, 0], [2, 1], [3, -3]], [0.5, 0.25]),
        alpha.grid_d0('g3', [[0, 0, 1], [2, 1, -1], [3, -3, 2], [1, 1, 1]], 0.5),
        alpha.grid_d0('g3l', [[0, 0, 1], [2, 1, -1], [3, -3, 2]], [0.5, 0.25, 3]),
        alpha.custom('c1l', [0.0, 0.5, 1.7], True), alpha.custom('c1a', [0.0, 0.5, 1.7]),
        alpha.custom('c1col', [[0.0], [0.5], [1.7]], True), alpha.custom('c1int', [0, 1, 5], True),
        alpha.custom('c2', [[0.0, 1.0], [0.5, -1.0]], True), alpha.custom('c2a', [[0.0, 1.0], [0.5, -1.0]]),
        alpha.custom('c3', [[0.0, 1.0, 2.0], [0.5, -1.0, 0.3], [1, 1, 1]], True),
        alpha.custom('c3int', [[0, 1, 2], [5, -1, 0]]), alpha.custom('c3row', [[0.1, 0.2, 0.3]]),
    ]
    # custom and grid based arrays of every size, their elements in no order
    for n in range(4, 65 if thorough else 41):
        x = [[round(((i * 0.6180339887498949 + 0.13) % 1.0) * 40 - 20, 2), i * 7 % n - 3.5, (i * i) % 11 * 0.25] for i in range(n)]
        d = n % 3 + 1
        out.append(alpha.custom('c%d-%d' % (d, n), [v[:d] for v in x] if d > 1 else [v[0] for v in x], n % 2 == 0))
        I = [[int(v[1] * 2), int(v[0]), i // 2][:d] for i, v in enumerate(x)]
        out.append(alpha.grid_d0('g%d-%d' % (d, n), I, [0.5, 0.25, 0.4][:d]) if n % 2 else alpha.grid_bases('b%d-%d' % (d, n), I, [[0.5, 0.1, -0.2], [0.0, 0.3, 0.7], [0.4, 0.2, 0.6]][:d]))
    return out


def gen_design(c):
    sp = c.choose('design', specs(c.thorough))
    # first option set = every option on its own, second = all of them together
    opt = c.choose('options', ['none', 'name', 'elem', 'vec2', 'pert-list', 'pert-dict', 'all', 'loc-only+vec3', 'empty name', 'odd name'])
    return sp, opt


def run_design(sc, rec):
    sp, opt = sc
    n = sp.size
    kw = {}
    exp_name = None
    elem, L = None, 1
    perts = []
    if opt in ('name', 'all'):
        if not sp.custom:
            kw['name'] = exp_name = 'my array'
    if opt in ('empty name', 'odd name') and not sp.custom:
        kw['name'] = exp_name = '' if opt == 'empty name' else ' {0} %s 10/2\n'
    if sp.custom:
        exp_name = sp.name
    if opt == 'elem':
        elem, L = _element('scalar')
    elif opt == 'all':
        elem, L = _element('scalar')
    elif opt == 'vec2':
        elem, L = _element('vec2')
    elif opt == 'loc-only+vec3':
        elem, L = _element('vec3')
        perts = [('location_errors', alpha.pert_params('location_errors', n, 2), True)]
    if opt in ('pert-list', 'all'):
        perts = [('phase_errors', alpha.pert_params('phase_errors', n), True),
                 ('location_errors', alpha.pert_params('location_errors', n, 1), False)]
    if opt == 'pert-dict':
        perts = [('mutual_coupling', alpha.pert_params('mutual_coupling', n), False),
                 ('gain_errors', alpha.pert_params('gain_errors', n), True),
                 ('location_errors', alpha.pert_params('location_errors', n, 0), True),
                 ('phase_errors', alpha.pert_params('phase_errors', n), False)]
    if elem is not None:
        kw['element'] = elem
    if perts:
        if opt == 'pert-dict':
            kw['perturbations'] = {t: (p, k) for t, p, k in perts}
        else:
            kw['perturbations'] = [alpha.pert_class(t)(p, k) for t, p, k in perts]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = sp.make(**kw)
    rec.step()
    require(a.size == n, 'size {} expected {}', a.size, n)
    require(a.ndim == sp.loc.shape[1], 'ndim {} expected {}', a.ndim, sp.loc.shape[1])
    loc = a.element_locations
    require(isinstance(loc, np.ndarray) and ref.close(loc, sp.loc, 1e-12), 'element locations\n{}\nexpected\n{}', loc, sp.loc)
    if exp_name is not None:
        require(a.name == exp_name, 'name {!r} expected {!r}', a.name, exp_name)
    else:
        require(isinstance(a.name, str) and a.name, 'no default name')
    require(a.output_size == n * L, 'output size {} expected {}', a.output_size, n * L)
    if elem is not None:
        require(a.element is elem, 'element option not honoured')
    else:
        require(a.element.is_scalar and a.element.is_isotropic and a.element.output_size == 1
                and not a.element.is_polarized, 'default element is not an isotropic scalar sensor')
    require(a.is_perturbed == bool(perts), 'is_perturbed {}', a.is_perturbed)
    got = a.perturbations
    require(len(got) == len(perts), '{} perturbations, expected {}', len(got), len(perts))
    for g, (t, p, k) in zip(got, perts):
        cls = alpha.pert_class(t)
        require(type(g) is cls and g.is_known == k and ref.close(g.params, p, 0), 'perturbation {} wrong', t)
        require(a.has_perturbation(cls) and a.is_perturbation_known(cls) == k
                and ref.close(a.get_perturbation_params(cls), p, 0), 'perturbation {} query wrong', t)
    for t in alpha.PTYPES:
        if t not in [q[0] for q in perts]:
            require(not a.has_perturbation(alpha.pert_class(t)), 'phantom perturbation {}', t)
    act = sp.loc
    for t, p, k in perts:
        if t == 'location_errors':
            act = ref.add_location_errors(act, p)
    require(ref.close(a.actual_element_locations, act, 1e-12), 'actual locations\n{}\nexpected\n{}',
            a.actual_element_locations, act)
    require(a.actual_ndim == act.shape[1], 'actual ndim {}', a.actual_ndim)
    rec.step(8)
    if sp.grid is not None:
        g = sp.grid
        require(np.array_equal(a.element_indices, np.array(g['indices'])), 'indices {}', a.element_indices)
        require(ref.close(a.d0, np.array(g['d0'], float), 1e-12), 'd0 {} expected {}', a.d0, g['d0'])
        require(ref.close(a.bases, np.array(g['bases'], float), 1e-12), 'bases {} expected {}', a.bases, g['bases'])
        rec.step(3)
        e = a.element_indices
        e += 100
        require(np.array_equal(a.element_indices, np.array(g['indices'])), 'modifying returned indices changed the array')
    # design parameters
    nm = sp.name
    if nm.startswith('Nested'):
        n1, n2 = [int(v) for v in nm[7:-1].split(',')[:2]]
        require((a.n1, a.n2) == (n1, n2), 'n1,n2 = {},{}', a.n1, a.n2)
    elif nm.startswith('CoPrime'):
        m_, n_ = [int(v) for v in nm[8:-1].split(',')[:2]]
        require(tuple(a.coprime_pair) == (min(m_, n_), max(m_, n_)), 'coprime pair {}', a.coprime_pair)
        require(a.mode == nm[8:-1].split(',')[3].lower(), 'mode {}', a.mode)
    elif nm.startswith('URA'):
        m_, n_ = [int(v) for v in nm[4:-1].split(',')[:2]]
        require(tuple(a.shape) == (m_, n_), 'shape {}', a.shape)
    elif nm.startswith('UCA'):
        require(ref.close(float(a.radius), float(nm[4:-1].split(',')[1]), 0), 'radius {}', a.radius)
    # copies
    for get in ('element_locations', 'actual_element_locations'):
        x = getattr(a, get)
        before = getattr(a, get).copy()
        if x.flags.writeable:
            x += 7
        require(ref.close(getattr(a, get), before, 0), 'modifying {} changed the array', get)
        require(ref.close(a.element_locations, sp.loc, 1e-12), 'modifying {} changed the nominal locations', get)
        rec.step()
    got.clear()
    require(len(a.perturbations) == len(perts), 'clearing the returned perturbation list changed the array')
    rec.state(nm, opt, loc, act)


# ------------------------------------------------------------------- MRLA
# apertures of the published low-redundancy configurations are not asserted,
# only the defining property: every difference 0..L occurs.
def gen_mrla(c):
    return c.choose('n', list(range(1, 21))), c.choose('d0', [0.5, 0.3, 2.0]), c.choose('opt', ['none', 'name', 'pert'])


def run_mrla(sc, rec):
    from doatools.model.arrays import MinimumRedundancyLinearArray as M
    n, d0, opt = sc
    kw = {}
    if opt == 'name':
        kw['name'] = 'x'
    if opt == 'pert':
        kw['perturbations'] = {'gain_errors': (np.full(n, 0.1), True)}
    a = M(n, d0, **kw)
    rec.step()
    require(a.size == n and a.ndim == 1, 'size {} ndim {}', a.size, a.ndim)
    require(opt != 'name' or a.name == 'x', 'name ignored')
    require(a.is_perturbed == (opt == 'pert'), 'perturbation option ignored')
    ind = a.element_indices
    require(ind.shape == (n, 1), 'index shape {}', ind.shape)
    ind = ind.ravel().tolist()
    require(ind[0] == 0 and all(x < y for x, y in zip(ind, ind[1:])), 'indices {} not ascending from 0', ind)
    diffs = {x - y for x in ind for y in ind if x >= y}
    require(diffs == set(range(ind[-1] + 1)), 'MRLA({}) misses differences {}', n, sorted(set(range(ind[-1] + 1)) - diffs))
    require(ref.close(a.element_locations.ravel(), np.array(ind) * d0, 1e-12), 'locations are not indices times d0')
    # redundancy may not exceed the published bound for large arrays (R < 1.7)
    if n > 2:
        require(n * (n - 1) / 2.0 / ind[-1] < 1.7, 'MRLA({}) of aperture {} is not low-redundancy', n, ind[-1])
    # longest possible apertures (exhaustive searches, J. Leech 1956)
    if n <= 9:
        require(ind[-1] == [0, 1, 3, 6, 9, 13, 17, 23, 29][n - 1], 'MRLA({}) has aperture {}', n, ind[-1])
    rec.step(4)
    rec.state(n, d0, opt, ind)


# ----------------------------------- number types and layouts of the inputs
FORMS = [None] + alpha.LAYOUTS + ['int64', 'int16', 'float32', 'list']


def form(x, how):
    return np.asarray(x, dtype=float).tolist() if how == 'list' else alpha.typed(x, how)


def gen_form(c):
    d = c.choose('d', [1, 2, 3])
    kind = c.choose('kind', ['general', 'd0', 'd0-scalar', 'bases', 'bases-narrow', 'ura', 'uca', 'ula'])
    return d, kind, c.choose('first', FORMS), c.choose('second', FORMS), c.choose('values', ['plain', 'signed', 'zero', 'descending', 'wide'])


def run_form(sc, rec):
    from doatools.model import arrays as A
    d, kind, f1, f2, vals = sc
    I = np.array([[2, 0, -1], [0, 1, 3], [-3, 2, 0], [5, -2, 1]])[:, :d]
    v = {'plain': [0.5, 0.75, 1.25], 'signed': [1.5, -0.5, 2.5], 'zero': [2.0, 0.0, 1.0], 'descending': [7.25, 2.5, 0.5], 'wide': [1e-3, 50.0, 3000.0]}[vals][:d]
    single = 'float32' in (f1, f2)
    seen = []

    def build(cls, *a, **k):
        seen.extend((x, np.array(x, copy=True)) for x in list(a) + list(k.values()) if not isinstance(x, str))
        return cls(*a, **k)
    if kind == 'general':
        x = form(np.array(I) * 1.25 + np.array(v), f1)
        want = np.array(np.asarray(x, dtype=float))
        a = build(A.ArrayDesign, x, 'g')
        if f2 is not None:
            return
    elif kind in ('d0', 'd0-scalar'):
        idx = alpha.typed(I, f1 if f1 != 'list' else None).astype(int) if f1 in (None, 'float32', 'list') else alpha.typed(I, f1)
        if f1 not in (None, 'list', 'float32', 'int64', 'int16'):
            idx = alpha.relayout(I, f1)
        q = v[0] if kind == 'd0-scalar' else form(v, f2)
        if kind == 'd0-scalar' and f2 is not None:
            return
        want = np.array(I) * np.array(q, dtype=float)
        a = build(A.GridBasedArrayDesign, idx, q, 'g')
        require(ref.close(np.asarray(a.d0, dtype=float), np.full(d, v[0]) if kind == 'd0-scalar' else np.array(q, dtype=float), 1e-12), 'd0 {}', a.d0)
    elif kind.startswith('bases'):
        idx = alpha.relayout(I, f1) if f1 in alpha.LAYOUTS else I.astype(f1 if f1 in ('int64', 'int16') else int)
        B = np.diag(v) + 0.5 * np.array([[0, 1, 0], [-1, 0, 2], [0, 1, 0]])[:d, :d]
        if kind == 'bases':
            B = np.hstack([B, np.array([[1.0], [-2.0], [0.5]])[:d]])[:, :3]
        if f2 == 'list':
            return
        B = form(B, f2)
        want = I @ np.array(B, dtype=float)
        a = build(A.GridBasedArrayDesign, idx, bases=B, name='g')
        require(ref.close(np.asarray(a.d0, dtype=float), np.linalg.norm(np.array(B, dtype=float), axis=1), 1e-6 if single else 1e-12), 'd0 {}', a.d0)
        require(ref.close(np.asarray(a.bases, dtype=float), np.array(B, dtype=float), 1e-12), 'bases {}', a.bases)
    elif kind == 'ura':
        if d == 3 or f1 is not None:
            return
        q = form(v[:2], f2) if d == 2 else v[0]
        s = np.full(2, v[0]) if d == 1 else np.array(q, dtype=float)
        want = np.array([[i * s[0], j * s[1]] for i in range(3) for j in range(2)]) if len(s) == 2 else None
        if d == 2 and len(v) < 2:
            return
        a = build(A.UniformRectangularArray, 3, 2, q)
    else:
        if d > 1 or f1 is not None:
            return
        q = {None: v[0], 'int64': np.int64(3), 'int16': np.int16(300), 'float32': np.float32(0.3), 'readonly': np.float64(0.7)}.get(f2)
        if q is None:
            return
        if kind == 'ula':
            a, want = build(A.UniformLinearArray, 5, q), np.arange(5.0).reshape(-1, 1) * float(q)
        else:
            a = build(A.UniformCircularArray, 5, q)
            want = np.array([[float(q) * math.cos(2 * math.pi * i / 5), float(q) * math.sin(2 * math.pi * i / 5)] for i in range(5)])
    if want.ndim == 1:
        want = want.reshape(-1, 1)
    tol = 1e-6 if single else 1e-12
    for get in ('element_locations', 'actual_element_locations'):
        x = getattr(a, get)
        require(x.shape == want.shape and np.all(np.abs(x - want) <= tol * (1 + np.max(np.abs(want)))), '{} {} expected {}', get, x, want)
        if x.flags.writeable:
            x[...] = 9
        require(np.all(np.abs(getattr(a, get) - want) <= tol * (1 + np.max(np.abs(want)))), 'modifying {} changed the array', get)
    require(a.size == len(want) and a.ndim == want.shape[1] == a.actual_ndim, 'size {} ndim {}', a.size, a.ndim)
    for x, c in seen:
        require(np.array_equal(np.asarray(x), c), 'argument modified')
    rec.step(3)
    rec.state(*sc)


HARNESSES = [Tree('forms', gen_form, run_form), Tree('design', gen_design, run_design), Tree('mrla', gen_mrla, run_mrla)]
