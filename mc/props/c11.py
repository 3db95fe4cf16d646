"""C11 reusability: all call histories up to the depth bound."""
import functools
import itertools

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Graph, Tree, Violation, require

ASSUMPTIONS = ['results of convex solvers are compared up to the accuracy of the solver']

_fresh = {}


def clone(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (tuple, list)):
        return tuple(clone(v) for v in x)
    # source placement
    return (type(x).__name__, x.units, np.array(x.locations, copy=True))


def same(a, b, tol):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        fin = np.isfinite(a)
        if not np.array_equal(fin, np.isfinite(b)):
            return False
        if not fin.any():
            return True
        return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (1 + np.abs(a[fin]))))
    if isinstance(a, (float, np.floating)):
        return abs(a - b) <= tol
    return a == b


class Buffers:
    """Matrices of the caller.  The caller may overwrite the content of a matrix
    between two calls: two contents per matrix."""

    def __init__(self, xs):
        def other(x):
            if x.ndim == 2 and x.shape[0] == x.shape[1]:
                d = np.diag(np.linspace(1.5, 0.6, len(x)))
                return d @ x @ d
            return x[::-1] * 0.7
        self.content = [(x.copy(), other(x).astype(x.dtype)) for x in xs]
        self.now = [0] * len(xs)
        self.live = [x.copy() for x in xs]

    def __getitem__(self, i):
        return self.live[i]

    def fresh(self, i):
        return self.content[i][self.now[i]].copy()

    def overwrite(self, i):
        self.now[i] ^= 1
        self.live[i][...] = self.content[i][self.now[i]]

    def intact(self):
        return all(np.array_equal(a, c[n]) for a, c, n in zip(self.live, self.content, self.now))

    def key(self, i):
        return i, self.now[i]


def compare(key, got, make_fresh, tol, e, hist):
    if key not in _fresh:
        _fresh[key] = clone(make_fresh())
    want = _fresh[key]
    require(same(want, clone(got), tol), 'call {} after {} returned\n{}\na fresh object returns\n{}', e, hist, clone(got), want)


def scribble(x):
    """The caller modifies everything that was returned."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x *= 0.37
            x += 1
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
    elif x is not None and hasattr(x, 'locations') and x.size:
        x.locations[:] = x.locations * 0.3


# ------------------------------------------------- spectrum-based estimators
CFG = {
    '1d': (0, 2, ['two', 'pd']), '1dk': (1, 1, ['one', 'two']),
    '2d': (3, 4, ['one', 'pd']), 'nf': (4, 5, ['two', 'realpd']),
    'large': (1, 4, ['three', 'pd']), 'large-2d': (4, 8, ['two', 'pd']),
}


def config(cfg):
    si, gi, rs = CFG[cfg]
    if cfg.startswith('large'):
        return SP.large_setups()[si], SP.large_grids()[gi], rs
    return SP.setups()[si], SP.grids()[gi], rs



def sp_events(e, n_est, thorough):
    ev = []
    for t in range(min(n_est, 2)):
        for r in (0, 1):
            for k in (1, 2):
                ev.append(('est', t, r, k, 'sp'))
            ev.append(('est', t, r, 1, 'refine'))
        ev.append(('est', t, 0, 3, 'plain'))
        ev.append(('bad', t))
    for t in range(2, n_est):
        ev += [('est', t, 0, 1, 'sp'), ('est', t, 0, 1, 'refine')]
    # one option of the refinement changed at a time
    ev += [('est', 0, 0, 1, 'refine4'), ('est', 0, 0, 1, 'refine-once')]
    # a refined neighbourhood with as many points as the grid itself
    ev.append(('est', 0, 0, 1, 'refine-same'))
    ev.append(('overwrite', 0))
    ev.append(('scribble',))
    return ev


def make_sp_graph(name, cfg, caching, shared):
    rs = CFG[cfg][2]

    def build():
        s, g, _ = config(cfg)
        arr, grid = s.make(), g.make()
        kw = {} if caching is None else {'enable_caching': caching}
        es = [SP.estimator_class(name)(arr, 1.0, grid, **kw)]
        if shared:
            other = {'MUSIC': 'MVDR', 'MinNorm': 'Bartlett', 'Bartlett': 'MUSIC', 'MVDR': 'MinNorm'}[name]
            es.append(SP.estimator_class(other)(arr, 1.0, grid))
            # the same grid used with another wavelength and another array
            es.append(SP.estimator_class(name)(arr, 1.3, grid, **kw))
            es.append(SP.estimator_class(name)(arr.get_perturbed_copy({'phase_errors': (np.linspace(0.1, 0.8, s.size), True)}), 1.0, grid, **kw))
        return s, g, arr, grid, es

    n = config(cfg)[1].shape[0]

    def call(es, e, R):
        _, t, _, k, mode = e
        if mode == 'refine-same':
            return es[t].estimate(R, k, refine_estimates=True, refinement_density=max(1, (n - 1) // 2), refinement_iters=1, return_spectrum=True)
        if mode == 'sp':
            return es[t].estimate(R, k, return_spectrum=True)
        if mode == 'refine4':
            return es[t].estimate(R, k, refine_estimates=True, refinement_density=4, refinement_iters=2)
        if mode == 'refine-once':
            return es[t].estimate(R, k, refine_estimates=True, refinement_density=3, refinement_iters=1)
        if mode == 'refine':
            return es[t].estimate(R, k, refine_estimates=True, refinement_density=3, refinement_iters=2)
        return es[t].estimate(R, k)

    def run(hist, rec):
        s, g, arr, grid, es = build()
        A0 = SP.atoms(s, g, 1.0)
        Rs = Buffers([SP.cov(s, r, 1.0, g) for r in rs])
        last = None
        for i, e in enumerate(hist):
            if e[0] == 'est':
                last = call(es, e, Rs[e[2]])

                def fresh():
                    return call(build()[4], e, Rs.fresh(e[2]))
                compare((name, cfg, caching, shared, e, Rs.key(e[2])), last, fresh, 1e-10, e, hist[:i])
            elif e[0] == 'bad':
                try:
                    es[e[1]].estimate(np.eye(s.size + 1), 1)
                except ValueError:
                    pass
                else:
                    raise Violation('wrong covariance accepted')
            elif e[0] == 'overwrite':
                Rs.overwrite(e[1])
            else:
                scribble(last)
            rec.step()
            require(Rs.intact(), 'covariance modified by {}', e)
            for a, b in zip(grid.axes, g.axes):
                require(np.array_equal(np.asarray(a), np.array(b)), 'grid modified by {}', e)
            require(np.array_equal(np.asarray(grid.source_placement.locations, float).ravel(), np.array(g.points, float).ravel()),
                    'grid points modified by {}', e)
        if hist:
            require(ref.close(arr.steering_matrix(grid.source_placement, 1.0, perturbations='known'), A0, 1e-9), 'array modified')
            for p, (t, v, kn) in zip(arr.perturbations, s.perts):
                require(np.array_equal(p.params, v) and p.is_known == kn, 'perturbation modified')
        return [name, cfg] + list(hist), sp_events(name, len(es), False)
    return run


# --------------------------------------------------------- gridless methods
def make_gridless(name):
    W = {'w4': np.array([1.0, 2.0, 2.0, 1.0]), 'w3': np.array([0.5, 1.0, 3.0])}
    R_ = [ref.herm_pd(5, 4), ref.herm_pd(5, 9, 0.1), ref.herm_pd(4, 2)]

    def build():
        if name == 'esprit':
            from doatools.estimation.esprit import Esprit1D
            return Esprit1D(1.0)
        from doatools.estimation.music import RootMUSIC1D
        return RootMUSIC1D(1.0)
    if name == 'esprit':
        ev = [('e', 0, 2, {}), ('e', 1, 2, {'unit': 'deg', 'd0': 0.6}), ('e', 0, 1, {'displacement': 2, 'row_weights': 'w3', 'd0': 0.55}),
              ('e', 1, 3, {'row_weights': 'none', 'formulation': 'tls'}), ('e', 0, 2, {'row_weights': 'w4', 'unit': 'sin'}),
              ('e', 2, 2, {'formulation': 'tls', 'd0': 0.5}), ('bad', 0, 5, {}), ('scribble',), ('overwrite', 0)]
    else:
        ev = [('e', 0, 2, {}), ('e', 1, 2, {'unit': 'deg', 'd0': 0.6}), ('e', 0, 1, {'d0': 0.55}), ('e', 1, 4, {'unit': 'sin'}),
              ('e', 2, 2, {'d0': 0.5}), ('bad', 0, 5, {}), ('scribble',), ('overwrite', 0)]

    def call(o, e, R, ws):
        kw = dict(e[3])
        if kw.get('row_weights') in ws:
            kw['row_weights'] = ws[kw['row_weights']]
        return o.estimate(R, e[2], **kw)

    def run(hist, rec):
        hist = [tuple(e) for e in hist]
        o = build()
        Rs = Buffers(R_)
        ws = {k: v.copy() for k, v in W.items()}
        last = None
        for i, e in enumerate(hist):
            if e[0] == 'e':
                last = call(o, e, Rs[e[1]], ws)
                compare((name, repr(e), Rs.key(e[1])), last, lambda: call(build(), e, Rs.fresh(e[1]), {k: v.copy() for k, v in W.items()}), 1e-10, e, hist[:i])
            elif e[0] == 'bad':
                try:
                    call(o, e, Rs[0], ws)
                except ValueError:
                    pass
                else:
                    raise Violation('too many sources accepted')
            elif e[0] == 'overwrite':
                Rs.overwrite(e[1])
            else:
                scribble(last)
            rec.step()
            require(Rs.intact(), 'covariance modified by {}', e)
            require(all(np.array_equal(ws[k], W[k]) for k in W), 'weights modified by {}', e)
        return [name] + [repr(e) for e in hist], ev
    return run


# ---------------------------------------------------------------- ML methods
def make_ml(name):
    s = SP.setups()[0]
    truth = {'a': ('ff1d', [-0.4, 0.35], 'rad'), 'a2': ('ff1d', [-0.1, 0.8], 'rad'), 'b': ('ff1d', [20.0], 'deg'), 'c': ('ff1d', [-0.7, 0.1, 0.6], 'sin')}
    guess = {'a': [-0.44, 0.37], 'a2': [-0.13, 0.77], 'b': [22.0], 'c': [-0.68, 0.13, 0.57]}

    def cov(w):
        kind, t, u = truth[w]
        A = s.steering(kind, t, u, 1.0, 'all')
        return A @ np.diag([1.0 + 0.5 * i for i in range(len(t))]) @ A.conj().T + 0.3 * np.eye(s.size)

    def src(w):
        from doatools.model.sources import FarField1DSourcePlacement as F
        return F(np.array(guess[w]), truth[w][2])

    def build():
        from doatools.estimation import ml
        return {'AML': ml.AMLEstimator, 'CML': ml.CMLEstimator, 'WSF': ml.WSFEstimator}[name](s.make(), 1.0)
    ev = [('e', 'a', {}), ('e', 'a2', {}), ('buf', 'a'), ('buf', 'a2'), ('e', 'b', {}), ('e', 'c', {}), ('e', 'a', {'tol': 1e-12}), ('last',), ('scribble',), ('badR',), ('badk',)]

    def run(hist, rec):
        hist = [tuple(e) for e in hist]
        o = build()
        last = model = None
        buf, guess_buf = cov('a'), src('a')
        for i, e in enumerate(hist):
            if e[0] == 'buf':
                # one covariance matrix and one initial guess, overwritten by the caller
                buf[...] = cov(e[1])
                guess_buf.locations[:] = src(e[1]).locations
                last = o.estimate(buf, guess_buf)
                compare((name, repr(('e', e[1], {}))), last, lambda: build().estimate(cov(e[1]), src(e[1])), 1e-10, e, hist[:i])
                require(np.array_equal(buf, cov(e[1])) and np.array_equal(guess_buf.locations, src(e[1]).locations), 'inputs modified')
                model = clone(last[1])
            elif e[0] == 'e':
                R, s0, opt = cov(e[1]), src(e[1]), dict(e[2])
                R0, l0 = R.copy(), s0.locations.copy()
                last = o.estimate(R, s0, **opt)
                compare((name, repr(e)), last, lambda: build().estimate(cov(e[1]), src(e[1]), **dict(e[2])), 1e-10, e, hist[:i])
                require(last[0], 'not resolved from an ideal covariance')
                require(np.array_equal(R, R0) and np.array_equal(s0.locations, l0), 'inputs modified')
                require(opt == dict(e[2]), 'options modified')
                model = clone(last[1])
                # the caller goes on using its own objects
                s0.locations[:] = 0
                R *= 0
            elif e[0] == 'last':
                if model is None:
                    try:
                        o.get_last_estimates()
                    except RuntimeError:
                        pass
                    else:
                        raise Violation('last estimates before any estimation')
                else:
                    last = (None, o.get_last_estimates())
                    require(same(model, clone(last[1]), 0), 'last estimates {} expected {}', clone(last[1]), model)
            elif e[0] == 'scribble':
                scribble(last[1] if last else None)
            else:
                try:
                    if e[0] == 'badR':
                        o.estimate(np.eye(s.size + 1), src('a'))
                    else:
                        from doatools.model.sources import FarField1DSourcePlacement as F
                        o.estimate(cov('a'), F(np.linspace(-1, 1, s.size)))
                except ValueError:
                    pass
                else:
                    raise Violation('invalid request accepted')
            rec.step()
        return [name] + [repr(e) for e in hist], ev
    return run


# ------------------------------------------------- sparse estimators, problems
def make_sparse(kind, caching):
    s, g = SP.setups()[0], SP.Grid('sp', 'ff1d', 'rad', [[-1.2, -0.8, -0.4, 0.0, 0.3, 0.7, 1.1]])
    Rs_ = [SP.cov(s, 'one', 1.0, g), SP.cov(s, 'two', 1.0, g)]
    Ys_ = [ref.generic(s.size, 3, 1), ref.generic(s.size, 3, 4)]

    def build():
        from doatools.estimation.sparse import GroupSparseEstimator, SparseCovarianceMatching
        a, gr = s.make(), g.make()
        kw = {'enable_caching': caching}
        if kind == 'group':
            return GroupSparseEstimator(a, 1.0, gr, 3, **kw)
        form, known = kind.split('/')
        return SparseCovarianceMatching(a, 1.0, gr, noise_known=known == 'known', formulation=form, **kw)
    if kind == 'group':
        ev = [('g', 0, 1, 0.4), ('g', 1, 2, 0.4), ('g', 0, 2, 1.5), ('bad',), ('scribble',), ('overwrite', 0)]
    else:
        lim = {'penalizedl1': (0.3, 1.0), 'constrainedl1': (1.0, 2.5), 'constrainedl2': (1.0, 2.5)}[kind.split('/')[0]]
        ev = [('c', 0, 1, lim[0]), ('c', 1, 2, lim[0]), ('c', 0, 2, lim[1]), ('bad',), ('scribble',), ('overwrite', 0)]

    def call(o, e, data):
        opt = {'solver': 'CLARABEL'}
        if e[0] == 'g':
            r = o.estimate(data[e[1]], e[2], e[3], solver_options=opt, return_spectrum=True)
        elif kind.endswith('/known'):
            r = o.estimate(data[e[1]], e[2], e[3], sigma=0.2, solver_options=opt, return_spectrum=True)
        else:
            r = o.estimate(data[e[1]], e[2], e[3], solver_options=opt, return_spectrum=True)
        require(opt == {'solver': 'CLARABEL'}, 'solver options modified')
        return r

    def run(hist, rec):
        hist = [tuple(e) for e in hist]
        o = build()
        src = Ys_ if kind == 'group' else Rs_
        data = Buffers(src)
        last = None
        for i, e in enumerate(hist):
            if e[0] in 'gc':
                last = call(o, e, data)
                # the spectrum is compared; the estimates follow from it (C14)
                compare((kind, caching, e, data.key(e[1])), (bool(last[0]), last[2]),
                        lambda: [v for j, v in enumerate(call(build(), e, {e[1]: data.fresh(e[1])})) if j != 1], 1e-4, e, hist[:i])
            elif e[0] == 'bad':
                try:
                    o.estimate(np.ones((s.size + 1, s.size + 1)), 1, 0.5, **({'sigma': 0.1} if kind.endswith('known') and kind != 'group' else {}))
                except ValueError:
                    pass
                else:
                    raise Violation('wrong size accepted')
            elif e[0] == 'overwrite':
                data.overwrite(e[1])
            else:
                scribble(last)
            rec.step()
            require(data.intact(), 'data modified by {}', e)
        return [kind, caching] + list(hist), ev
    return run


# ------------------------------- weight functions, builders, grids, problems
def borrowed():
    """The call histories of the other reusable objects.  Every answer is
    compared with the reference of its own property, i.e. with what a fresh
    object has to answer."""
    from . import c06, c07, c08, c14
    out = [Graph('weight-function-%d' % i, c06.make_graph(g), {'quick': 4, 'thorough': 5}) for i, g in enumerate(c06.GEOMS)]
    out += [Graph('builder-%d' % i, c07.make_graph(g), {'quick': 4, 'thorough': 5}) for i, g in enumerate([[0, 1, 4, 6], [5, 0, 2]])]
    out += [Graph('grid-%d' % i, c08.make_graph(i), {'quick': 3, 'thorough': 4}) for i in (0, 8, 15, 17, 22)]
    out += [c14.reuse(f, n) for f in c14.FORMS for n in (False, True)] + [c14.reuse_l21(False), c14.reuse_l21(True)]
    return out


HARNESSES = []
for _n in SP.EST:
    for _cfg in CFG:
        if _cfg.startswith('large'):
            HARNESSES.append(Graph('%s-%s-cached' % (_n, _cfg), make_sp_graph(_n, _cfg, True, False), {'quick': 2, 'thorough': 3}))
            HARNESSES.append(Graph('%s-%s-shared' % (_n, _cfg), make_sp_graph(_n, _cfg, None, True), {'quick': 2, 'thorough': 2}))
            continue
        _th = 4 if _cfg == '1d' else 3
        HARNESSES.append(Graph('%s-%s-cached' % (_n, _cfg), make_sp_graph(_n, _cfg, True, False), {'quick': 4 if _cfg == '1d' else 3, 'thorough': _th + 1}))
        HARNESSES.append(Graph('%s-%s-uncached' % (_n, _cfg), make_sp_graph(_n, _cfg, False, False), {'quick': 3, 'thorough': _th}))
        HARNESSES.append(Graph('%s-%s-shared' % (_n, _cfg), make_sp_graph(_n, _cfg, None, True), {'quick': 3 if _cfg in ('1d', 'nf') else 2, 'thorough': 3}))
for _n in ('esprit', 'rootmusic'):
    HARNESSES.append(Graph(_n, make_gridless(_n), {'quick': 4, 'thorough': 6}))
for _n in ('AML', 'CML', 'WSF'):
    HARNESSES.append(Graph(_n, make_ml(_n), {'quick': 3, 'thorough': 5}))
for _k in ('penalizedl1/known', 'penalizedl1/unknown', 'constrainedl1/known', 'constrainedl1/unknown',
           'constrainedl2/known', 'constrainedl2/unknown', 'group'):
    HARNESSES.append(Graph('sparse-' + _k, make_sparse(_k, True), {'quick': 3, 'thorough': 5}))
    HARNESSES.append(Graph('sparse-uncached-' + _k, make_sparse(_k, False), {'quick': 2, 'thorough': 4}))
HARNESSES += borrowed()
