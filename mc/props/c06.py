"""C06 difference coarray and weight function: all sensor subsets."""
import functools
import itertools

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Skip, Tree, require

ASSUMPTIONS = ['weight functions are defined for arrays whose sensor positions are integers (several sensors may share one)']


@functools.lru_cache(None)
def subsets(n):
    out = []
    for k in range(1, n + 1):
        for t in itertools.combinations(range(n), k):
            out.append(t)
    return out


def orders(t):
    """identity, reversed, rotated, and two shifted copies of a sensor set."""
    out = [list(t), list(reversed(t)), list(t[1:]) + list(t[:1]), [x - 3 for x in t], [x + 5 for x in reversed(t)]]
    return out


def brute(ind):
    """difference -> positions in the column-major vectorised covariance.
    Entry (r, c) sits at position c*m + r and has difference ind[r]-ind[c]."""
    m = len(ind)
    d = {}
    for c in range(m):
        for r in range(m):
            d.setdefault(ind[r] - ind[c], []).append(c * m + r)
    return d


def central(d):
    n = 0
    while n in d:
        n += 1
    return n


def make_wf(ind, how='grid'):
    from doatools.model.arrays import GridBasedArrayDesign
    from doatools.model.coarray import WeightFunction1D
    a = GridBasedArrayDesign(np.array(ind).reshape(-1, 1), 0.5, 'a')
    return WeightFunction1D(a)


def check_wf(w, ind, rec, aperture=None):
    d = brute(ind)
    m = len(ind)
    ds = sorted(d)
    far = ds[-1] > 2000
    got = np.asarray(w.differences()).tolist()
    require(got == ds, 'differences {} expected {}', got, ds)
    require(len(w) == len(ds), 'len {}', len(w))
    require(np.asarray(w.weights()).tolist() == [len(d[x]) for x in ds], 'weights {}', w.weights())
    top = ds[-1] + 3
    for x in (range(-top, top + 1) if not far else sorted({y + e for y in ds for e in (-1, 0, 1)})):
        n = len(d.get(x, ()))
        require(w.weight_of(x) == n and w(x) == n, 'weight of {}: {} expected {}', x, w(x), n)
        require(sorted(int(v) for v in w.indices_of(x)) == sorted(d.get(x, [])), 'indices of {}: {} expected {}', x, w.indices_of(x), d.get(x))
    mv = central(d)
    require(w.get_central_ula_size() == 2 * mv - 1, 'central size {} expected {}', w.get_central_ula_size(), 2 * mv - 1)
    require(w.get_central_ula_size(True) == mv, 'half size {} expected {}', w.get_central_ula_size(True), mv)
    for half in (False, True):
        rng = range(0, mv) if half else range(-mv + 1, mv)
        F = np.zeros((len(rng), m * m))
        for i, x in enumerate(rng):
            for p in d[x]:
                F[i, p] = 1.0 / len(d[x])
        G = w.get_coarray_selection_matrix(half)
        require(G.shape == F.shape and ref.close(G, F, 1e-12), 'selection matrix (half={})\n{}\nexpected\n{}', half, G, F)
        R = ref.generic(m, m, 1)
        z = G @ R.reshape(-1, order='F')
        want = [np.mean([R[r, c] for r in range(m) for c in range(m) if ind[r] - ind[c] == x]) for x in rng]
        require(ref.close(z, np.array(want), 1e-10), 'averaged entries {} expected {}', z, want)
    rec.step(6 + 2 * top)


def gen_sub(c):
    t = c.choose('sensors', subsets(12 if c.thorough else 9))
    return c.choose('order', orders(t))


def run_sub(ind, rec):
    w = make_wf(ind)
    check_wf(w, ind, rec)
    check_wf(w, ind, rec)
    rec.state(ind)


# several sensors at one position
def gen_multi(c):
    n = c.choose('aperture', [1, 2, 3, 4] if not c.thorough else [1, 2, 3, 4, 5, 6])
    k = c.choose('sensors', [2, 3, 4, 5] if not c.thorough else [2, 3, 4, 5, 6])
    return c.choose('positions', [list(t) for t in itertools.product(range(n), repeat=k) if len(set(t)) < k and (k < 5 or n < 4 or list(t) == sorted(t))])


# named designs
@functools.lru_cache(None)
def designs(thorough):
    out = []
    n = 8 if thorough else 6
    for k in range(1, n + 3):
        out.append(alpha.ula(k, 0.5))
    for a in range(1, n):
        for b in range(1, n):
            out.append(alpha.nested(a, b, 0.5))
            if np.gcd(a, b) == 1:
                out.append(alpha.coprime(a, b, 0.5, '2m'))
                out.append(alpha.coprime(a, b, 0.3, 'm'))
    out += [alpha.nested(12, 12, 0.5), alpha.nested(16, 16, 0.5), alpha.ula(40, 0.5), alpha.ula(70, 0.1), alpha.coprime(9, 10, 0.5), alpha.nested(1, 70, 0.5)]
    out += [alpha.mrla(k, 0.5 if k % 2 else 0.35) for k in range(1, 21 if thorough else 15)]
    for i, ind in enumerate(([0, 1, 200, 300], [0, 1, 3, 130, 257], [0, 1, 2, 3, 40000], [70000, 3, 0, 1, 2], [-40000, -39999, 0, 1], [0, 1, 3, 7], [0, 1, 2, 4, 9])):
        out.append(alpha.grid_d0('large%d' % i, [[x] for x in ind], 0.5))
    return out


def gen_des(c):
    return c.choose('design', designs(c.thorough)), c.choose('copy', ['plain', 'perturbed'])


def run_des(sc, rec):
    from doatools.model.coarray import WeightFunction1D
    sp, how = sc
    a = sp.make()
    if how == 'perturbed':
        a = a.get_perturbed_copy({'location_errors': (alpha.pert_params('location_errors', sp.size, 0), True)})
    w = WeightFunction1D(a)
    check_wf(w, [i[0] for i in sp.grid['indices']], rec)
    rec.state(sp.name, how)


# types of the grid indices and ways to describe the spacing
TYPES = ['int64', 'int32', 'int16', 'int8', 'uint64', 'uint32', 'uint16', 'uint8', 'float64', 'float32', 'fortran', 'strided', 'readonly']
TYPED = [[0, 1, 3], [5, 0, 1, 7], [0, 2, 4], [127, 0, 1, 2, 64], [0], [200, 201, 0, 100], [-100, 0, 27, 1, 2], [-3, -1, 0], [3, 2, 1, 0], [255, 0, 254]]


def typed(ind, kind):
    x = np.array(ind).reshape(-1, 1)
    if kind == 'fortran':
        return np.asfortranarray(x)
    if kind == 'strided':
        return np.repeat(x, 2, axis=0)[::2]
    if kind == 'readonly':
        x.setflags(write=False)
        return x
    t = np.dtype(kind)
    if t.kind in 'iu' and (min(ind) < np.iinfo(t).min or max(ind) > np.iinfo(t).max):
        raise Skip()
    return x.astype(t)


SPACINGS = [0.5, -0.35, [0.4], np.array([[0.3]]), np.array([[-0.6]])]


def grid_array(ind, kind, spacing):
    from doatools.model.arrays import GridBasedArrayDesign
    i = typed(ind, kind)
    if isinstance(spacing, np.ndarray):
        return GridBasedArrayDesign(i, bases=spacing, name='a')
    return GridBasedArrayDesign(i, spacing, 'a')


def gen_types(c):
    return c.choose('sensors', TYPED), c.choose('type', TYPES), c.choose('spacing', SPACINGS)


def run_types(sc, rec):
    from doatools.model.coarray import WeightFunction1D, compute_location_differences, compute_unique_location_differences
    ind, kind, spacing = sc
    a = grid_array(ind, kind, spacing)
    check_wf(WeightFunction1D(a), ind, rec)
    if kind not in ('uint64',):
        i = typed(ind, kind)
        want = [ind[r] - ind[c] for c in range(len(ind)) for r in range(len(ind))]
        D = compute_location_differences(i)
        require(D.ravel().tolist() == want, 'differences of {} locations {} expected {}', kind, D.ravel().tolist(), want)
        U = compute_unique_location_differences(i)
        require(sorted(U.ravel().tolist()) == sorted(set(want)), 'unique differences of {} locations {}', kind, U.ravel().tolist())
        require(i.ravel().tolist() == ind, 'locations modified')
    rec.state(*sc)


# ------------------------------------------------------ query histories
GEOMS = [[0, 1, 3], [0, 2, 5], [3, 0, 1, 7], [0]]


def make_graph(ind):
    d = brute(ind)
    ops = [('full',), ('half',), ('selfull',), ('selhalf',), ('diffs',), ('weights',), ('indices', 0), ('indices', 1), ('indices', 99)]

    def run(hist, rec):
        w = make_wf(ind)
        for e in hist:
            if e[0] == 'full':
                w.get_central_ula_size()
            elif e[0] == 'half':
                w.get_central_ula_size(True)
            elif e[0] in ('selfull', 'selhalf'):
                F = w.get_coarray_selection_matrix(e[0] == 'selhalf')
                F *= 0
            elif e[0] == 'diffs':
                x = w.differences()
                x += 1
            elif e[0] == 'weights':
                x = w.weights()
                x += 1
            elif e[0] == 'indices':
                x = w.indices_of(e[1])
                if isinstance(x, list):
                    x.append(77)
                    x.reverse()
                else:
                    x += 1
            rec.step()
        check_wf(w, ind, rec)
        return list(hist), ops
    return run


# -------------------------------------------- unique location differences
@functools.lru_cache(None)
def float_arrays(thorough):
    out = [sp for sp in alpha.steering_arrays(thorough)]
    out += [alpha.ura(3, 3, 0.1), alpha.ula(9, 0.1), alpha.uca(6, 0.3), alpha.uca(8, 1.1),
            alpha.grid_d0('g3', [[0, 0, 1], [2, 1, -1], [3, -3, 2], [1, 1, 1]], [0.1, 0.3, 0.7])]
    out += [alpha.custom('irr%d-%d' % (d, v), (ref.generic(n, d, v, False) / 3).tolist()) for d in (1, 2, 3) for v in (1, 2) for n in (2, 4, 5)]
    out += [alpha.custom('thirds%d' % d, (np.array([[0, 0, 0], [1, 0, 2], [0, 1, 1], [2, 1, 0], [1, 1, 1]])[:, :d] / 3 + [[0] * d, [0] * d, [1e-4] * d, [0] * d, [2e-4] * d]).tolist()) for d in (2, 3)]
    out += [alpha.custom('cube%d' % i, (np.array(p) * [1 / 3, 2 / 7, 0.123456789]).tolist()) for i, p in enumerate(
        itertools.combinations(list(itertools.product([0, 1], repeat=3)), 5))]
    out += [alpha.custom('thirds3b', (np.array([[0, 0, 0], [1, 0, 2], [0, 1, 1], [2, 1, 0], [1, 1, 1]]) / 3).tolist())]
    vals = [0.0, 0.1, 0.3]
    for pts in itertools.combinations(list(itertools.product(vals, vals)), 3):
        out.append(alpha.custom('p2', [list(p) for p in pts]))
    for pts in itertools.combinations(list(itertools.product([0.0, 0.7], [0.0, 0.1], [0.0, 0.3])), 3):
        out.append(alpha.custom('p3', [list(p) for p in pts]))
    out += alpha.degenerate_arrays()
    return out


def gen_diff(c):
    return c.choose('array', float_arrays(c.thorough)), c.choose('order', ['same', 'reversed']), c.choose('scale', [1.0, 1e-10, 1e8])


def run_diff(sc, rec):
    from doatools.model.coarray import compute_location_differences, compute_unique_location_differences
    sp, order, scale = sc
    loc = sp.loc.copy() if order == 'same' else sp.loc[::-1].copy()
    loc *= scale
    loc0 = loc.copy()
    m = len(loc)
    D = compute_location_differences(loc)
    # rows: position c*m + r of the vectorised covariance has loc[r] - loc[c]
    want = np.array([loc[r] - loc[c] for c in range(m) for r in range(m)])
    require(D.shape == want.shape and ref.close(D / scale, want / scale, 1e-12), 'differences\n{}\nexpected\n{}', D, want)
    U = compute_unique_location_differences(loc)
    want, U = want / scale, U / scale
    reps = []
    for w in want:
        if not any(np.all(np.abs(w - v) <= 1e-7) for v in reps):
            reps.append(w)
    require(U.shape == (len(reps), loc.shape[1]), '{} unique differences, expected {}', U.shape, len(reps))
    for v in reps:
        require(sum(bool(np.all(np.abs(u - v) <= 3e-8)) for u in U) == 1, 'difference {} missing or duplicated', v)
    require(np.array_equal(loc, loc0), 'locations modified')
    rec.step(2)
    rec.state(sp.name, sorted(map(tuple, np.round(want, 6).tolist())))


HARNESSES = [Tree('types', gen_types, run_types), Tree('subsets', gen_sub, run_sub), Tree('coinciding sensors', gen_multi, run_sub), Tree('designs', gen_des, run_des), Tree('differences', gen_diff, run_diff)] + \
    [Graph('queries-%d' % i, make_graph(g), {'quick': 4, 'thorough': 6}) for i, g in enumerate(GEOMS)]
