"""C22 rejection of malformed requests.

Every entry point is described by its parameters with valid, boundary and
invalid values; the full product of the values is executed.  A request with
at least one invalid value has to raise one of the error types of the invalid
values involved, all others have to be served, and whatever object took part
has to behave afterwards like a fresh one."""
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['error kinds: ValueError/RuntimeError where the code base documents one; any exception where a Python lookup fails (unknown dictionary keys, wrong types)']
PI = math.pi
VE = (ValueError,)
RT = (RuntimeError,)
ANY = (Exception,)


class Opt:
    def __init__(self, label, value=None, err=None):
        self.label, self.value, self.err = label, label if value is None else value, err

    def __repr__(self):
        return '%s%s' % (self.label, '' if self.err is None else ' (bad)')


def ok(label, value=None):
    return Opt(label, value)


def bad(label, value=None, err=VE):
    return Opt(label, value, err)


NONE = object()


class Entry:
    def __init__(self, name, params, call, extra=None, after=None, bound=None):
        self.name, self.params, self.call, self.extra, self.after = name, params, call, extra, after
        self.bound = bound

    def tree(self):
        return Tree(self.name, self.gen, self.run, bound=self.bound)

    def gen(self, c):
        return {n: c.choose(n, o) for n, o in self.params}

    def run(self, sc, rec):
        p = {k: (None if o.value is NONE else o.value) for k, o in sc.items()}
        errs = [o.err for o in sc.values() if o.err is not None]
        if self.extra is not None:
            e = self.extra(p)
            if e is not None:
                errs.append(e)
        raised, out = None, None
        try:
            out = self.call(p)
        except Skip:
            raise
        except Exception as e:
            raised = e
        rec.step()
        if errs:
            require(raised is not None, '{} accepted the request {} and returned {!r}', self.name, sc, out)
            kinds = tuple(k for e in errs for k in e)
            require(isinstance(raised, kinds), '{} raised {!r} for {}, expected {}', self.name, raised, sc, kinds)
        else:
            require(raised is None, '{} rejected the valid request {}: {!r}', self.name, sc, raised)
        if self.after is not None:
            self.after(p, out)
            rec.step()
        rec.state(self.name, str(sc), raised is None)


# -------------------------------------------------------------------- imports
def A_():
    from doatools.model import arrays
    return arrays


def S_():
    from doatools.model import sources
    return sources


def P_():
    from doatools.model import perturbations
    return perturbations


def E_():
    from doatools.model import array_elements
    return array_elements


def vector_sensor():
    return E_().CustomNonisotropicSensor(lambda r, az, el, p: np.stack([np.cos(az), np.sin(az)]), 2)


def scalar_sensor():
    return E_().CustomNonisotropicSensor(lambda r, az, el, p: 1.0 + 0.1 * np.cos(az), 1)


# ------------------------------------------------------------------- arrays
LOCS = [ok('list1d', [0.0, 0.5, 1.25, 2.0]), ok('4x1', np.array([[0.0], [0.5], [1.0], [2.0]])), ok('4x2', np.arange(8).reshape(4, 2) * 0.3),
        ok('4x3', ref.generic(4, 3, 1, False)), bad('4x4', np.eye(4)), bad('2x2x1', np.zeros((2, 2, 1)))]


class Fac:
    """A fresh object per execution."""

    def __init__(self, f):
        self.f = f


def fac(label, f, err=None):
    o = Opt(label, Fac(f), err)
    return o


def pert_opts(n=4):
    P = P_
    return [fac('none', lambda: []), fac('custom', lambda: [P().ArrayPerturbation(None)]),
            fac('loc dict', lambda: {'location_errors': (np.full((n, 2), 0.1), True)}),
            fac('gain list', lambda: [P().GainErrors([0.1] * n)]),
            fac('all', lambda: [P().GainErrors([0.1] * n), P().PhaseErrors([0.2] * n, True), P().MutualCoupling(np.eye(n)), P().LocationErrors(np.zeros((n, 1)))]),
            fac('gain short', lambda: [P().GainErrors([0.1] * (n - 1))], RT), fac('phase long', lambda: [P().PhaseErrors(np.zeros(n + 1))], RT),
            fac('location short', lambda: [P().LocationErrors(np.zeros((n - 1, 2)))], RT), fac('coupling long', lambda: [P().MutualCoupling(np.eye(n + 1))], RT),
            fac('coupling dict short', lambda: {'mutual_coupling': (np.eye(n - 1), False)}, RT),
            fac('location one', lambda: [P().LocationErrors(np.full((1, 2), 0.1))], RT), fac('gain one', lambda: [P().GainErrors([0.1])], RT),
            fac('phase one dict', lambda: {'phase_errors': (np.array([0.1]), True)}, RT), fac('coupling one', lambda: [P().MutualCoupling(np.eye(1))], RT),
            fac('location none', lambda: [P().LocationErrors(np.zeros((0, 1)))], RT), fac('gain none', lambda: [P().GainErrors(np.zeros(0))], RT),
            fac('location double', lambda: [P().LocationErrors(np.zeros((2 * n, 3)))], RT), fac('gain double', lambda: [P().GainErrors(np.zeros(2 * n))], RT),
            fac('second bad', lambda: [P().PhaseErrors(np.zeros(n)), P().GainErrors(np.zeros(n + 1))], RT),
            fac('unknown key', lambda: {'delay_errors': (np.zeros(n), True)}, ANY),
            fac('gain matrix', lambda: {'gain_errors': (np.zeros((n, 1)), True)}, VE), fac('coupling vector', lambda: {'mutual_coupling': (np.zeros(n), True)}, VE),
            fac('locations vector', lambda: {'location_errors': (np.zeros(n), True)}, VE), fac('coupling not square', lambda: {'mutual_coupling': (np.zeros((n, n + 1)), True)}, VE)]


ELEMENTS = [fac('isotropic', lambda: E_().ISOTROPIC_SCALAR_SENSOR), fac('scalar', scalar_sensor), fac('vector', vector_sensor)]
SCALAR_ONLY = {'gain list', 'all'}


def twice():
    P = P_
    return [fac('two gains', lambda: [P().GainErrors([0.1] * 4), P().GainErrors([0.2] * 4)], RT), fac('two locations', lambda: [P().LocationErrors(np.zeros((4, 1))), P().LocationErrors(np.zeros((4, 2)))], RT),
            fac('two couplings', lambda: [P().MutualCoupling(np.eye(4)), P().PhaseErrors(np.zeros(4)), P().MutualCoupling(np.eye(4))], RT)]


def mk_array(p):
    kw = {}
    kw['perturbations'] = p['perturbations'].f()
    return A_().ArrayDesign(p['locations'], 'x', element=p['element'].f(), **kw)


def pert_extra(p):
    """Gain, phase and coupling errors need scalar elements."""
    el = p['element'].f()
    if el.output_size == 1:
        return None
    try:
        ps = p['perturbations'].f()
    except Exception:
        return ANY
    if isinstance(ps, dict):
        return RT if set(ps) & {'gain_errors', 'phase_errors', 'mutual_coupling'} else None
    P = P_()
    return RT if any(isinstance(q, (P.GainErrors, P.PhaseErrors, P.MutualCoupling)) for q in ps) else None


def copy_call(p):
    a = p['_a'] = A_().ArrayDesign([[0.0, 0.1], [0.5, 0.0], [1.0, 0.3], [2.0, 0.0]], 'base',
                                   p['base'].f(), element=p['element'].f())
    p['_before'] = array_print(a)
    b = a.get_perturbed_copy(p['perturbations'].f(), 'copy')
    return b


def copy_extra(p):
    el = p['element'].f()
    if el.output_size > 1 and p['base'].f():
        raise Skip()
    return pert_extra(p)


def array_print(a):
    s = S_().FarField1DSourcePlacement([0.1, -0.4])
    return [a.name, a.size, a.element_locations.tolist(), a.actual_element_locations.tolist(), a.is_perturbed, len(a.perturbations),
            np.round(a.steering_matrix(s, 1.0), 12).tolist()]


def copy_after(p, out):
    require(array_print(p['_a']) == p['_before'], 'the array changed')


# -------------------------------------------------------------- perturbations
def pert_ctor(p):
    return getattr(P_(), p['class'])(p['params'], p['known'])


SHAPES_ALL = [('list', [0.1, 0.2, 0.3]), ('vector', np.zeros(3)), ('scalar', np.array(0.5)), ('3x1', np.zeros((3, 1))), ('3x2 list', [[0.1, 0.2]] * 3), ('3x3', np.eye(3)), ('3x3 list', np.eye(3).tolist()),
              ('3x4', np.zeros((3, 4))), ('3x0', np.zeros((3, 0))), ('2x3', np.zeros((2, 3))), ('1x1', np.ones((1, 1))), ('3d', np.zeros((3, 3, 3))), ('int', np.array([1, 2, 3])), ('1-vector', np.zeros(1))]


def pert_rule(p):
    x = np.asarray(p['params'])
    if p['class'] == 'LocationErrors':
        good = x.ndim == 2 and 1 <= x.shape[1] <= 3
    elif p['class'] == 'MutualCoupling':
        good = x.ndim == 2 and x.shape[0] == x.shape[1]
    else:
        good = x.ndim == 1
    return None if good else VE


# ----------------------------------------------------------------- grid arrays
def grid_call(p):
    ind = np.arange(2 * p['dim']).reshape(2, p['dim'])
    if p['bases'] is not None:
        return A_().GridBasedArrayDesign(ind, bases=p['bases'])
    return A_().GridBasedArrayDesign(ind, p['d0'])


def grid_rule(p):
    if p['bases'] is not None:
        return None if p['bases'].shape[0] == p['dim'] else VE
    d = np.asarray(p['d0'])
    return None if d.ndim == 0 or (d.ndim == 1 and d.size == p['dim']) else VE


def cop_rule(p):
    return None if math.gcd(p['m'], p['n']) == 1 and p['mode'].lower() in ('m', '2m') else VE


# --------------------------------------------------------------------- sources
LIM1 = {'rad': PI / 2, 'deg': 90.0, 'sin': 1.0}


def src1_call(p):
    x = p['value']
    lim = LIM1.get(p['unit'], 1.0)
    x = [v * lim for v in x]
    if p['kind'] == 'list':
        v = list(x)
    elif p['kind'] == 'array':
        v = np.array(x)
    elif p['kind'] == 'column':
        v = np.array(x).reshape(-1, 1)
    elif p['kind'] == 'nested list':
        v = [[y] for y in x]
    keep = np.array(v, copy=True)
    p['_v'] = (v, keep)
    return S_().FarField1DSourcePlacement(v, p['unit'])


def src_after(p, out):
    if '_v' in p:
        v, keep = p['_v']
        require(np.array_equal(np.asarray(v), keep), 'input changed')


LIM2 = {'rad': (PI, PI / 2), 'deg': (180.0, 90.0)}


def src2_call(p):
    la, le = LIM2.get(p['unit'], (1.0, 1.0))
    x = np.array([[0.1 * la, 0.2 * le], [p['az'] * la, p['el'] * le]])
    if p['order']:
        x = x[::-1]
    v = x.tolist() if p['kind'] == 'list' else x
    if p['kind'] == 'three columns':
        v = np.hstack((x, x[:, :1]))
    elif p['kind'] == 'flat':
        v = x.ravel()
    elif p['kind'] == 'one column':
        v = x[:, :1]
    elif p['kind'] == '3d':
        v = x[None]
    p['_v'] = (v, np.array(v, copy=True))
    return S_().FarField2DSourcePlacement(v, p['unit'])


IN = [0.0, 1.0, -1.0, 1 - 1e-9, 0.5]
OUT = [1 + 1e-9, -1 - 1e-9, 2.0, -40.0, float('inf'), -float('inf')]


def make_src(k):
    S = S_()
    return {'ff1 rad': lambda: S.FarField1DSourcePlacement([0.1, -0.4]), 'ff1 deg': lambda: S.FarField1DSourcePlacement([10.0, -40.0], 'deg'),
            'ff1 sin': lambda: S.FarField1DSourcePlacement([0.1, -0.4], 'sin'),
            'ff2 rad': lambda: S.FarField2DSourcePlacement([[0.1, 0.4], [-2.0, 0.3]]), 'ff2 deg': lambda: S.FarField2DSourcePlacement([[10.0, 40.0], [-120.0, 30.0]], 'deg'),
            'nf': lambda: S.NearField2DSourcePlacement([[1.0, 2.0], [-3.0, 4.0]])}[k]()


KINDS = ['ff1 rad', 'ff1 deg', 'ff1 sin', 'ff2 rad', 'ff2 deg', 'nf']


def unit_call(p):
    s = p['_s'] = make_src(p['source'])
    p['_l'] = s.locations.copy()
    return s.as_unit(p['unit'])


def unit_rule(p):
    k = p['source']
    allowed = {'f1': ('rad', 'deg', 'sin'), 'f2': ('rad', 'deg'), 'nf': ('m',)}[k[0] + k[2] if k[0] == 'f' else 'nf'] if k != 'nf' else ('m',)
    return None if p['unit'] in allowed else ANY


def unit_after(p, out):
    s, l = p['_s'], p['_l']
    require(np.array_equal(s.locations, l), 'source locations changed')
    if out is not None:
        require(out is not s and not np.shares_memory(out.locations, s.locations), 'as_unit returned a view')
        require(out.units[0] == p['unit'], 'unit {}', out.units)


def index_call(p):
    s = p['_s'] = make_src(p['source'])
    p['_l'] = s.locations.copy()
    i = p['index']
    return s[i]


def ff(n):
    return {'ff1': lambda: S_()}


def steer_call(p):
    a = p['_a'] = A_().ArrayDesign(p['locations'], 'x', element=p['element'].f())
    return a.steering_matrix(make_src(p['source']), 0.8, p['derivatives'], p['perturbations'])


def steer_rule(p):
    e = []
    el = p['element'].f()
    if p['derivatives'] and (not el.is_isotropic or el.output_size > 1):
        e += RT
    if p['derivatives'] and not p['source'].startswith('ff1'):
        e += VE
    return tuple(e) or None


def delay_call(p):
    s = make_src(p['source'])
    loc = ref.generic(3, max(1, p['columns']), 2, False)[:, :p['columns']]
    return s.phase_delay_matrix(loc, 1.1, p['derivatives'])


def delay_rule(p):
    if not 1 <= p['columns'] <= 3:
        return VE
    if p['derivatives'] and not p['source'].startswith('ff1'):
        return VE
    return None


def fromz_call(p):
    z = np.exp(1j * np.array([0.3, -0.7]))
    return S_().FarField1DSourcePlacement.from_z(z, 1.0, 0.5, p['unit'])


# ------------------------------------------------------------------ estimation
N = 4


def cov(n):
    a = ref.steer([[0.5 * i] for i in range(n)], 'ff1d', [0.3, -0.5], 'rad', 1.0) if False else None
    A = np.exp(1j * PI * np.outer(np.arange(n), np.sin([0.3, -0.5])))
    return A @ np.diag([2.0, 1.0]) @ A.conj().T + 0.1 * np.eye(n)


def cov_opts(n):
    R = cov(n + 1)
    return [ok('good', cov(n)), bad('small', R[:n - 1, :n - 1]), bad('large', R), bad('fewer rows', cov(n)[:-1]), bad('fewer columns', cov(n)[:, :-1]),
            bad('more columns', R[:n]), bad('1x1', cov(n)[:1, :1]), bad('1 row', cov(n)[:1]), bad('1 column', cov(n)[:, :1]), bad('vector', cov(n)[0]), bad('3d', cov(n)[None])]


def wrong(R, n):
    return R.shape != (n, n)


def spectral_call(p):
    from doatools import estimation as e
    from doatools.estimation import music, beamforming, min_norm, grid
    g = grid.FarField1DSearchGrid(size=40)
    a = A_().UniformLinearArray(N, 0.5)
    cls = {'MUSIC': music.MUSIC, 'MinNorm': min_norm.MinNorm, 'Bartlett': beamforming.BartlettBeamformer, 'MVDR': beamforming.MVDRBeamformer}[p['estimator']]
    est = p['_e'] = cls(a, 1.0, g)
    p['_f'] = cls(A_().UniformLinearArray(N, 0.5), 1.0, grid.FarField1DSearchGrid(size=40))
    if p['used']:
        est.estimate(cov(N), 2)
    R = p['_R'] = p['R'].copy()
    R.setflags(write=False)
    kw = {'return_spectrum': p['spectrum']}
    if p['refine']:
        kw['refine_estimates'] = True
    return est.estimate(R, p['k'], **kw)


def spectral_rule(p):
    return VE if p['estimator'] in ('MUSIC', 'MinNorm') and p['k'] > N - 1 else None


def spectral_after(p, out):
    r1, e1, s1 = p['_e'].estimate(cov(N), 2, return_spectrum=True)
    r2, e2, s2 = p['_f'].estimate(cov(N), 2, return_spectrum=True)
    require(r1 == r2 and np.array_equal(e1.locations, e2.locations) and np.array_equal(s1, s2), 'the estimator changed')
    require(np.array_equal(p['_R'], p['R']), 'covariance modified')


def root_call(p):
    from doatools.estimation import music
    est = p['_e'] = music.RootMUSIC1D(1.0)
    kw = {} if p['d0'] is None else {'d0': p['d0']}
    return est.estimate(p['R'], p['k'], unit=p['unit'], **kw)


def root_after(p, out):
    from doatools.estimation import music
    _, a = p['_e'].estimate(cov(4), 2)
    _, b = music.RootMUSIC1D(1.0).estimate(cov(4), 2)
    require(np.array_equal(a.locations, b.locations), 'the estimator changed')
    if out is not None and out[0]:
        require(out[1].units == (p['unit'],) and out[1].size == p['k'], 'unit {} size {}', out[1].units, out[1].size)


def root_rule(p):
    R = p['R']
    return VE if R.ndim != 2 or R.shape[0] != R.shape[1] or p['k'] > R.shape[0] - 1 else None


def esprit_call(p):
    from doatools.estimation import esprit
    est = p['_e'] = esprit.Esprit1D(1.0)
    m = p['R'].shape[0]
    w = p['weights']
    n = m - p['displacement']
    if w == 'fit':
        w = np.ones(max(n, 0))
    elif w == 'long':
        w = np.ones(max(n, 0) + 1)
    elif w == 'short':
        w = np.ones(max(n - 1, 0))
    elif w == 'one':
        w = np.ones(1 if n != 1 else 2)
    elif w == 'row':
        w = np.ones((1, max(n, 0)))
    elif w == 'column':
        w = np.ones((max(n, 0), 1))
    elif w == 'list':
        w = [1.0] * max(n, 0)
    elif w == 'None':
        w = None
    return est.estimate(p['R'], p['k'], displacement=p['displacement'], formulation=p['formulation'], row_weights=w, unit=p['unit'])


def esprit_rule(p):
    R = p['R']
    if p['displacement'] >= 1 and p['k'] > R.shape[0] - p['displacement']:
        return VE
    if R.shape[0] - p['displacement'] < 1:
        return VE
    return None


def esprit_after(p, out):
    from doatools.estimation import esprit
    _, a = p['_e'].estimate(cov(4), 2)
    _, b = esprit.Esprit1D(1.0).estimate(cov(4), 2)
    require(np.array_equal(a.locations, b.locations), 'the estimator changed')


def ml_call(p):
    from doatools.estimation import ml
    cls = getattr(ml, p['estimator'])
    est = p['_e'] = cls(A_().UniformLinearArray(N, 0.5), 1.0)
    S = S_()
    p['_last'] = None
    if p['used']:
        est.estimate(cov(N), S.FarField1DSourcePlacement([0.28, -0.52]))
        p['_last'] = est.get_last_estimates().locations.copy()
    s0 = S.FarField1DSourcePlacement([0.3 - 0.35 * i for i in range(p['k'])])
    p['_s0'] = (s0, s0.locations.copy())
    p['_served'] = False
    r = est.estimate(p['R'], s0)
    p['_served'] = True
    return r


def ml_rule(p):
    return VE if p['k'] > N - 1 else None


def ml_after(p, out):
    from doatools.estimation import ml
    est = p['_e']
    require(np.array_equal(p['_s0'][0].locations, p['_s0'][1]), 'initial guess modified')
    if not p['_served']:
        if p['_last'] is None:
            try:
                est.get_last_estimates()
            except RuntimeError:
                pass
            else:
                require(False, 'estimates available although no estimation succeeded')
        else:
            require(np.array_equal(est.get_last_estimates().locations, p['_last']), 'last estimates changed by a rejected request')
    S = S_()
    fresh = getattr(ml, p['estimator'])(A_().UniformLinearArray(N, 0.5), 1.0)
    g = S.FarField1DSourcePlacement([0.28, -0.52])
    a, b = est.estimate(cov(N), g), fresh.estimate(cov(N), g)
    require(a[0] == b[0] and ref.close(a[1].locations, b[1].locations, 1e-9), 'the estimator changed')


def scm_call(p):
    from doatools.estimation import sparse, grid
    a = A_().UniformLinearArray(3, 0.5)
    kw = {} if p['formulation'] is None else {'formulation': p['formulation']}
    est = p['_e'] = sparse.SparseCovarianceMatching(a, 1.0, grid.FarField1DSearchGrid(size=11), p['noise'], **kw)
    kw = {}
    if p['refine']:
        kw['refine_estimates'] = True
    if p['sigma'] is not None:
        kw['sigma'] = p['sigma']
    kw['solver_options'] = {'solver': 'CLARABEL'}
    return est.estimate(p['R'], 1, 1.5, **kw)


def scm_rule(p):
    return VE if p['noise'] and p['sigma'] is None else None


def scm_after(p, out):
    if '_e' not in p or out is not None:
        return
    from doatools.estimation import sparse, grid
    kw = {} if p['formulation'] is None else {'formulation': p['formulation']}
    o = dict(sigma=0.1, return_spectrum=True, solver_options={'solver': 'CLARABEL'})
    f = sparse.SparseCovarianceMatching(A_().UniformLinearArray(3, 0.5), 1.0, grid.FarField1DSearchGrid(size=11), p['noise'], **kw)
    a, b = p['_e'].estimate(cov(3), 1, 1.5, **o), f.estimate(cov(3), 1, 1.5, **o)
    require(a[0] == b[0] and ref.close(a[2], b[2], 1e-7), 'the estimator changed')


def gs_call(p):
    from doatools.estimation import sparse, grid
    est = p['_e'] = sparse.GroupSparseEstimator(A_().UniformLinearArray(3, 0.5), 1.0, grid.FarField1DSearchGrid(size=11), 2)
    kw = {'refine_estimates': True} if p['refine'] else {}
    kw['solver_options'] = {'solver': 'CLARABEL'}
    return est.estimate(ref.generic(p['rows'], p['cols'], 3), 1, 0.5, **kw)


def gs_rule(p):
    return VE if p['rows'] != 3 or p['cols'] != 2 or p['refine'] else None


def gs_after(p, out):
    if out is not None:
        return
    from doatools.estimation import sparse, grid
    f = sparse.GroupSparseEstimator(A_().UniformLinearArray(3, 0.5), 1.0, grid.FarField1DSearchGrid(size=11), 2)
    o = dict(return_spectrum=True, solver_options={'solver': 'CLARABEL'})
    a, b = p['_e'].estimate(ref.generic(3, 2, 5), 1, 0.5, **o), f.estimate(ref.generic(3, 2, 5), 1, 0.5, **o)
    require(a[0] == b[0] and ref.close(a[2], b[2], 1e-7), 'the estimator changed')


def l1_call(p):
    from doatools.optim import l1lsq
    pr = p['_p'] = l1lsq.L1RegularizedLeastSquaresProblem(3, 2, p['formulation'], p['nonneg'])
    return pr.solve(ref.generic(p['rows'], p['cols'], 1, False), np.ones((p['b'], 1)), p['l'], solver='CLARABEL')


def l1_rule(p):
    return ANY if p['rows'] != 3 or p['cols'] != 2 or p['b'] != 3 or p['l'] < 0 else None


def l1_after(p, out):
    if '_p' not in p:
        return
    from doatools.optim import l1lsq
    f = l1lsq.L1RegularizedLeastSquaresProblem(3, 2, p['formulation'], p['nonneg'])
    A, b = ref.generic(3, 2, 4, False), np.array([[1.0], [0.2], [-0.7]])
    l = {'penalizedl1': 0.1, 'constrainedl1': 0.7, 'constrainedl2': 1.3}[p['formulation']]
    x, y = p['_p'].solve(A, b, l, solver='CLARABEL'), f.solve(A, b, l, solver='CLARABEL')
    require(ref.close(np.ravel(x), np.ravel(y), 1e-6), 'the problem changed')


def l21_call(p):
    from doatools.optim import l1lsq
    pr = p['_p'] = l1lsq.L21RegularizedLeastSquaresProblem(3, 2, 2, p['complex'])
    return pr.solve(ref.generic(p['rows'], p['cols'], 1, False), ref.generic(p['brows'], p['bcols'], 2, False), p['l'], solver='CLARABEL')


def l21_rule(p):
    return ANY if (p['rows'], p['cols'], p['brows'], p['bcols']) != (3, 2, 3, 2) or p['l'] < 0 else None


def tiny_call(p):
    from doatools.estimation import music, beamforming, min_norm, grid, ml
    m, k, e = p['m'], p['k'], p['estimator']
    a = A_().UniformLinearArray(m, 0.5)
    R = np.eye(m) + 0.2 * np.outer(np.exp(0.7j * np.arange(m)), np.exp(-0.7j * np.arange(m)))
    if e == 'RootMUSIC1D':
        return music.RootMUSIC1D(1.0).estimate(R, k)
    if e in ('AMLEstimator', 'CMLEstimator', 'WSFEstimator'):
        return getattr(ml, e)(a, 1.0).estimate(R, S_().FarField1DSourcePlacement([0.4 - 0.3 * i for i in range(k)]))
    g = grid.FarField1DSearchGrid(size=15)
    cls = {'MUSIC': music.MUSIC, 'MinNorm': min_norm.MinNorm, 'Bartlett': beamforming.BartlettBeamformer, 'MVDR': beamforming.MVDRBeamformer}[e]
    return cls(a, 1.0, g).estimate(R, k)


def tiny_rule(p):
    return VE if p['estimator'] not in ('Bartlett', 'MVDR') and p['k'] > p['m'] - 1 else None


LIMIT_ARRAYS = ['ula', 'ura', 'uca', '3d', '3d known', 'ula unknown', 'nested', 'plain 1d', 'skew grid', 'flat in 3d', 'line in 3d', 'list']


def limit_array(k):
    A, P = A_(), P_()
    pts = np.array([[0.0, 0.0, 0.0], [0.4, 0.1, 0.0], [0.0, 0.5, 0.2], [0.3, -0.1, 0.6]])
    return {'ula': lambda: A.UniformLinearArray(4, 0.5), 'ura': lambda: A.UniformRectangularArray(2, 2, 0.4), 'uca': lambda: A.UniformCircularArray(4, 0.5),
            '3d': lambda: A.ArrayDesign(pts, 'x'), '3d known': lambda: A.ArrayDesign(pts, 'x', [P.GainErrors([0.1, -0.1, 0.2, 0.0], True)]),
            'ula unknown': lambda: A.UniformLinearArray(4, 0.5, perturbations=[P.LocationErrors(0.05 * pts), P.MutualCoupling(np.eye(4) + 0.05)]),
            'nested': lambda: A.NestedArray(2, 2, 0.5), 'plain 1d': lambda: A.ArrayDesign([0.0, 0.5, 1.1, 1.5], 'x'),
            'skew grid': lambda: A.GridBasedArrayDesign(np.array([[0, 0], [1, 0], [0, 1], [2, 1]]), bases=np.array([[0.4, 0.1], [0.1, 0.5]])),
            'flat in 3d': lambda: A.ArrayDesign(pts * [1, 1, 0], 'x'), 'line in 3d': lambda: A.ArrayDesign(np.outer(np.arange(4), [0.3, 0.2, 0.1]), 'x'),
            'list': lambda: A.ArrayDesign([[0.0, 0.1], [0.5, 0.0], [1.0, 0.3], [1.6, 0.0]], 'x')}[k]()


def limit_call(p):
    from doatools.estimation import music, beamforming, min_norm, grid, ml
    S, e, k, kind = S_(), p['estimator'], p['k'], p['sources']
    a = limit_array(p['array'])
    mk = {'ff1': S.FarField1DSourcePlacement, 'ff2': S.FarField2DSourcePlacement, 'nf': S.NearField2DSourcePlacement}[kind]
    x = {'ff1': [0.31 - 0.4 * i for i in range(k)], 'ff2': [[0.3 - 1.1 * i, 0.4 + 0.15 * i] for i in range(k)], 'nf': [[1.5 - 0.9 * i, 2.0 + 0.4 * i] for i in range(k)]}[kind]
    t = {'ff1': [0.3, -0.5], 'ff2': [[0.35, 0.45], [-0.9, 0.6]], 'nf': [[1.4, 2.1], [-0.6, 2.5]]}[kind]
    B = a.steering_matrix(mk(np.array(t)), 1.0)
    R = B @ B.conj().T + 0.3 * np.eye(4)
    if p['R'] != 4:
        R = np.eye(p['R']) + 0.1 + 0j
    if e in ('AMLEstimator', 'CMLEstimator', 'WSFEstimator'):
        est = getattr(ml, e)(a, 1.0)
        if k > 3 or p['R'] != 4:
            return est.estimate(R, mk(np.array(x)))
        require(est.get_max_resolvable_sources() == 3, '{} sources resolvable', est.get_max_resolvable_sources())
        return est.estimate(R, mk(np.array(x)), options={'maxiter': 3})
    g = {'ff1': lambda: grid.FarField1DSearchGrid(size=15), 'ff2': lambda: grid.FarField2DSearchGrid(size=(7, 5)), 'nf': lambda: grid.NearField2DSearchGrid((-3.0, 3.0), (1.0, 4.0), (5, 4))}[kind]()
    cls = {'MUSIC': music.MUSIC, 'MinNorm': min_norm.MinNorm, 'Bartlett': beamforming.BartlettBeamformer, 'MVDR': beamforming.MVDRBeamformer}[e]
    return cls(a, 1.0, g).estimate(R, k)


def limit_rule(p):
    if p['R'] != 4:
        return VE
    return VE if p['estimator'] not in ('Bartlett', 'MVDR') and p['k'] > 3 else None


# ------------------------------------------------------------------ coarray &c.
def coarray_array(k):
    A = A_()
    return {'nested': lambda: A.NestedArray(2, 2, 0.5), 'ula': lambda: A.UniformLinearArray(4, 0.5), 'custom grid': lambda: A.GridBasedArrayDesign(np.array([[0], [1], [4], [6]]), 0.5),
            'ura': lambda: A.UniformRectangularArray(2, 2, 0.5), 'uca': lambda: A.UniformCircularArray(4, 0.5),
            'plane indices on a line': lambda: A.GridBasedArrayDesign(np.array([[0, 0], [1, 0], [0, 1], [1, 1]]), bases=np.array([[0.5], [1.0]]), name='x'), 'plain 1d': lambda: A.ArrayDesign([0.0, 0.5, 1.0, 1.5], 'x'),
            'perturbed nested': lambda: A.NestedArray(2, 2, 0.5, perturbations=[P_().GainErrors([0.1] * 4)])}[k]()


def wf_call(p):
    from doatools.model.coarray import WeightFunction1D
    return WeightFunction1D(coarray_array(p['array']))


def acm_call(p):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    b = p['_b'] = CoarrayACMBuilder1D(coarray_array(p['array']))
    f = b if p['call'] else b.transform
    return f(p['R'], p['method'])


def acm_after(p, out):
    if '_b' not in p:
        return
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    f = CoarrayACMBuilder1D(coarray_array(p['array']))
    require(np.array_equal(p['_b'].transform(cov(4)), f.transform(cov(4))), 'the builder changed')


CO_BAD = [bad(k) for k in ('ura', 'uca', 'plain 1d', 'plane indices on a line')]
CO_OK = [ok(k) for k in ('nested', 'ula', 'custom grid', 'perturbed nested')]


def smooth_call(p):
    from doatools.estimation.preprocessing import spatial_smooth
    R = ref.generic(p['m'], p['m'], 1)
    p['_v'] = (R, R.copy())
    return spatial_smooth(R, p['l'], p['fb'])


def sorte_call(p):
    from doatools.estimation.source_number import sorte
    v = np.array([0.1, 0.3, 1.0, 2.5, 7.0, 11.0][:p['n']])
    x = v if p['kind'] == 'vector' else np.diag(v)
    return sorte(x)


# ------------------------------------------------------------------ performance
POW = [('scalar', 1.5), ('list', [1.0, 2.0]), ('vector', np.array([1.0, 2.0])), ('matrix', np.diag([1.0, 2.0])),
       ('long list', [1.0, 2.0, 3.0]), ('long vector', np.ones(3)), ('short vector', np.ones(1)), ('short list', [2.0]), ('empty list', []), ('1x2 matrix', np.ones((1, 2))), ('2x1 matrix', np.ones((2, 1))), ('large matrix', np.eye(3)), ('1x1 matrix', np.ones((1, 1))), ('2x3 matrix', np.ones((2, 3))),
       ('3x2 matrix', np.ones((3, 2))), ('3d', np.ones((2, 2, 2)))]


def p_opts(matrix_only=False):
    out = []
    for l, v in POW:
        good = l in ('scalar', 'list', 'vector', 'matrix')
        if matrix_only:
            if l in ('scalar', 'list', 'long list', 'short list', 'empty list'):
                continue
            good = l == 'matrix'
        out.append(Opt(l, v, None if good else VE))
    return out


MODES = [ok('full'), ok('diag'), ok('mean_diag'), bad('trace'), bad('Full'), bad('')]


def perf_call(p):
    from doatools.performance import crb, mse
    f = getattr(crb, p['_fn']) if hasattr(crb, p['_fn']) else getattr(mse, p['_fn'])
    a = p['array'].f()
    p['_a'] = (a, array_print(a))
    s = make_src(p['source'])
    kw = {}
    if 'perturbations' in p:
        kw['perturbations'] = p['perturbations']
    return f(a, s, 1.0, p['p'], 0.1, 10, return_mode=p['mode'], **kw)


def perf_after(p, out):
    require(array_print(p['_a'][0]) == p['_a'][1], 'the array changed')
    if out is not None:
        k = 2
        want = {'full': (k, k), 'diag': (k,), 'mean_diag': ()}[p['mode']]
        require(np.shape(out) == want, 'shape {}', np.shape(out))


def perf_entry(fn, matrix_only, arrays, more=()):
    def call(p):
        p['_fn'] = fn
        return perf_call(p)
    src = [Opt(k, k, None if k.startswith('ff1') else VE) for k in KINDS]
    return Entry(fn, [('source', src), ('p', p_opts(matrix_only)), ('mode', MODES), ('array', arrays)] + list(more), call, after=perf_after)


ARR = [fac('ula', lambda: A_().UniformLinearArray(5, 0.5)), fac('uca', lambda: A_().UniformCircularArray(5, 0.6)),
       fac('perturbed', lambda: A_().UniformLinearArray(5, 0.5, perturbations=[P_().GainErrors([0.1, -0.2, 0.0, 0.1, 0.3])]))]
ARR_MUSIC = ARR + [fac('3 elements', lambda: A_().UniformLinearArray(3, 0.5)), fac('2 elements', lambda: A_().UniformLinearArray(2, 0.5), VE)]
ARR_CO = [fac('nested', lambda: A_().NestedArray(2, 2, 0.5)), fac('coprime', lambda: A_().CoPrimeArray(2, 3, 0.5)), fac('ula 3', lambda: A_().UniformLinearArray(3, 0.5)),
          fac('perturbed', lambda: A_().NestedArray(2, 2, 0.5, perturbations=[P_().GainErrors([0.0, 0.1, 0.2, 0.0])]), VE),
          fac('known perturbation', lambda: A_().NestedArray(2, 2, 0.5, perturbations={'location_errors': (np.zeros((4, 1)), True)}), VE),
          fac('too small', lambda: A_().UniformLinearArray(2, 0.5), VE), fac('ura', lambda: A_().UniformRectangularArray(2, 2, 0.5), VE),
          fac('uca', lambda: A_().UniformCircularArray(5, 0.5), VE), fac('plain 1d', lambda: A_().ArrayDesign([0.0, 0.5, 1.0, 1.5], 'x'), VE),
          fac('hole at 1', lambda: A_().GridBasedArrayDesign(np.array([[0], [2], [4], [7]]), 0.5), VE)]


def unify_call(p):
    from doatools.performance import utils
    v = p['p']
    keep = np.array(v, copy=True)
    out = getattr(utils, p['fn'])(v, 2)
    require(np.array_equal(np.asarray(v), keep), 'input changed')
    return out


def reduce_call(p):
    from doatools.performance import utils
    return utils.reduce_output_matrix(np.array([[1.0, 2.0], [3.0, 4.0]]), p['mode'])


# ---------------------------------------------------------------------- signals
def css_call(p):
    from doatools.model.signals import ComplexStochasticSignal
    return ComplexStochasticSignal(p['dim'], p['C']).emit(3)


def css_rule(p):
    C, d = p['C'], p['dim']
    if np.isscalar(C):
        return None
    if C.ndim == 1:
        return None if C.size == d else VE
    if C.ndim == 2:
        return None if C.shape == (d, d) else VE
    return VE


def rps_call(p):
    from doatools.model.signals import RandomPhaseSignal
    return RandomPhaseSignal(p['dim'], p['amp']).emit(3)


def rps_rule(p):
    a = p['amp']
    return None if np.isscalar(a) or a.size == p['dim'] else VE


def snap_call(p):
    from doatools.model.signals import ComplexStochasticSignal
    from doatools.model.snapshots import get_narrowband_snapshots
    a = A_().UniformLinearArray(4, 0.5)
    kw = {}
    if p['noise'] is not None:
        kw['noise_signal'] = ComplexStochasticSignal(p['noise'], 0.1)
    return get_narrowband_snapshots(a, make_src('ff1 rad'), 1.0, ComplexStochasticSignal(p['signal'], 1.0), n_snapshots=5, **kw)


# ----------------------------------------------------------------------- others
def elem_call(p):
    el = {'isotropic': lambda: E_().ISOTROPIC_SCALAR_SENSOR, 'plain': scalar_sensor,
          'polarized': lambda: E_().CustomNonisotropicSensor(lambda r, az, el, q: r * 0 + 1.0, 1, True)}[p['element']]()
    sh = {'same': [(2, 3)] * 3, 'az differs': [(2, 3), (3, 2), (2, 3)], 'el differs': [(2, 3), (2, 3), (2,)], 'r differs': [(3,), (2, 3), (2, 3)], 'vectors': [(3,)] * 3}[p['shapes']]
    r, az, e = (np.ones(s) for s in sh)
    q = {'none': None, 'fit': np.ones(sh[0] + (2,)), 'short': np.ones(sh[0][:-1] + (1, 2)), 'flat': np.ones(2)}[p['polarization']]
    kw = {} if q is None else {'polarization': q}
    return el.calc_spatial_response(r, az, e, **kw)


def elem_rule(p):
    if 'differs' in p['shapes']:
        return VE
    if p['polarization'] != 'none' and p['element'] != 'polarized':
        return VE
    if p['polarization'] in ('short', 'flat'):
        return VE
    return None


def grid_new(k):
    from doatools.estimation import grid
    return {'ff1': lambda: grid.FarField1DSearchGrid(size=6), 'ff2': lambda: grid.FarField2DSearchGrid(size=(4, 5)), 'nf': lambda: grid.NearField2DSearchGrid((-1, 1), (1, 3), (4, 5)),
            'one1': lambda: grid.FarField1DSearchGrid(size=1), 'one2': lambda: grid.FarField2DSearchGrid(size=(1, 1)), 'onef': lambda: grid.NearField2DSearchGrid((-1, 1), (1, 3), (1, 1))}[k]()


def refine_call(p):
    g = p['_g'] = grid_new(p['grid'])
    p['_ax'] = [a.copy() for a in g.axes]
    c = (0 if p['grid'].startswith('one') else 2,) * p['coords']
    if p['what'] == 'axes':
        return g.create_refined_axes_at(c, p['density'], p['span'])
    return g.create_refined_grid_at(c, density=p['density'], span=p['span'])


def refine_rule(p):
    d = 1 if p['grid'] in ('ff1', 'one1') else 2
    return VE if p['coords'] != d or p['density'] < 1 or p['span'] < 1 else None


def refine_after(p, out):
    require(all(np.array_equal(a, b) for a, b in zip(p['_g'].axes, p['_ax'])), 'the grid changed')


def gunit_call(p):
    from doatools.estimation import grid
    cls = getattr(grid, p['class'])
    kw = {}
    if p['range']:
        kw = {'start': -0.1, 'stop': 0.1} if '1D' in p['class'] else {'start': (-0.1, 0.0), 'stop': (0.1, 0.1)}
    g = cls(unit=p['unit'], size=4, **kw)
    return g.source_placement


def gunit_rule(p):
    u = ('rad', 'deg', 'sin') if '1D' in p['class'] else ('rad', 'deg')
    return None if p['unit'] in u else ANY


def gbase_call(p):
    from doatools.estimation import grid

    class G(grid.SearchGrid):
        def _create_source_placement(self):
            return None

        def create_refined_grid_at(self, coord, density, span):
            return None
    ax = np.linspace(0, 1, 4)
    return G(*[((ax,), ('x',), ('m',))[i] if p['a%d' % i] else ([ax], ['x'], ['m'])[i] for i in range(3)])


def kr_call(p):
    from doatools.utils.math import khatri_rao
    return khatri_rao(np.ones((2, p['ka'])), np.ones((3, p['kb'])))


def ur_call(p):
    from doatools.utils.math import unique_rows
    x = {'matrix': np.eye(2), 'vector': np.ones(3), '3d': np.ones((2, 2, 2)), 'one row': np.ones((1, 2))}[p['x']]
    return unique_rows(x)


def conv_call(p):
    from doatools.utils.conversion import convert_angles
    if p['from'] == p['to'] and p['from'] not in ('rad', 'deg', 'sin'):
        raise Skip()
    return convert_angles(np.array([0.1, 0.2]), p['from'], p['to'])


def conv_rule(p):
    u = ('rad', 'deg', 'sin')
    return None if p['from'] in u and p['to'] in u else ANY


def mrla_rule(p):
    return None if 1 <= p['n'] <= 20 else VE


def ints(*v):
    return [ok(str(x), x) for x in v]


def bools():
    return [Opt('no', False), Opt('yes', True)]


UNITS = [ok('rad'), ok('deg'), ok('sin')]

ENTRIES = [
    Entry('ArrayDesign', [('locations', LOCS), ('perturbations', pert_opts() + twice()), ('element', ELEMENTS)], mk_array, pert_extra),
    Entry('perturbed copy', [('perturbations', pert_opts()), ('element', ELEMENTS), ('base', [fac('none', lambda: []), fac('gain', lambda: [P_().GainErrors([0.3, 0.2, 0.1, 0.0])])])], copy_call, copy_extra, copy_after),
    Entry('perturbation classes', [('class', [ok(c) for c in ('LocationErrors', 'GainErrors', 'PhaseErrors', 'MutualCoupling')]), ('params', [ok(l, v) for l, v in SHAPES_ALL]), ('known', bools())], pert_ctor, pert_rule),
    Entry('grid arrays', [('dim', ints(1, 2, 3)), ('d0', [ok('0.5', 0.5), ok('1', [0.5]), ok('2', [0.5, 0.4]), ok('3', [0.5, 0.4, 0.3]), ok('4', (0.5, 0.4, 0.3, 0.2)), ok('2d', [[0.5]]), ok('2d row', np.ones((1, 2)))]),
                          ('bases', [ok('None', NONE), ok('1', np.ones((1, 2))), ok('2', np.eye(2)), ok('3', np.eye(3)), ok('2x3', np.ones((2, 3)))])], grid_call, grid_rule),
    Entry('co-prime arrays', [('m', ints(*range(1, 10))), ('n', ints(*range(1, 10))), ('mode', [ok(x) for x in ('2m', 'm', 'M', '2M', 'x', '', '2', 'mm')])],
          lambda p: A_().CoPrimeArray(p['m'], p['n'], 0.5, p['mode']), cop_rule),
    Entry('MRLA', [('n', ints(*range(-2, 25)))], lambda p: A_().MinimumRedundancyLinearArray(p['n'], 0.5), mrla_rule),
    Entry('1D sources', [('value', [ok(str(v), [0.1, v]) for v in IN] + [bad(str(v), [0.1, v]) for v in OUT] + [bad('first', [-1.5, 0.2]), ok('many', [0.1 * i - 0.9 for i in range(19)])]),
                         ('unit', UNITS + [bad('m'), bad('degree'), bad(''), bad('RAD')]), ('kind', [ok('list'), ok('array'), bad('column'), bad('nested list')])], src1_call,
          lambda p: None, src_after),
    Entry('2D sources', [('az', [ok(str(v), v) for v in IN] + [bad(str(v), v) for v in OUT]), ('el', [ok(str(v), v) for v in IN] + [bad(str(v), v) for v in OUT]),
                         ('unit', [ok('rad'), ok('deg'), bad('sin'), bad('m'), bad('x')]), ('kind', [ok('list'), ok('array'), bad('three columns'), bad('flat'), bad('one column'), bad('3d')]), ('order', [Opt('last', 0), Opt('first', 1)])],
          src2_call, None, src_after),
    Entry('near-field sources', [('locations', [ok('2x2', np.array([[1.0, 2.0], [3.0, 4.0]])), ok('list', [[1, 2]]), ok('far', np.array([[1e9, -1e9]])), bad('flat', np.ones(2)), bad('3 columns', np.ones((2, 3))), bad('1 column', np.ones((2, 1))), bad('3d', np.ones((1, 2, 2))), bad('flat list', [1.0, 2.0])])],
          lambda p: S_().NearField2DSourcePlacement(p['locations'])),
    Entry('as_unit', [('source', [ok(k) for k in KINDS]), ('unit', [ok(u) for u in ('rad', 'deg', 'sin', 'm', 'x', 'Rad', '')])], unit_call, unit_rule, unit_after),
    Entry('indexing', [('source', [ok(k) for k in KINDS]), ('index', [ok('0', 0), ok('-1', -1), ok('slice', slice(0, 1)), ok('list', [1]), ok('array', np.array([1, 0])), ok('mask', np.array([True, False])),
                                                                  bad('2d', np.zeros((1, 1), dtype=int)), bad('tuple', (0, 1), ANY), bad('None', NONE, ANY), bad('5', 5, ANY), bad('list 7', [7], ANY), bad('dict', {0: 1}, ANY)])],
          index_call, None, lambda p, out: require(np.array_equal(p['_s'].locations, p['_l']), 'sources changed')),
    Entry('steering matrix', [('source', [ok(k) for k in KINDS]), ('derivatives', bools()), ('perturbations', [ok('all'), ok('known'), ok('none'), bad('some'), bad('ALL'), bad('')]), ('element', ELEMENTS),
                              ('locations', [ok('1d', [0.0, 0.5, 1.0]), ok('2d', ref.generic(3, 2, 1, False)), ok('3d', ref.generic(3, 3, 1, False))])], steer_call, steer_rule),
    Entry('phase delays', [('source', [ok(k) for k in KINDS]), ('columns', ints(1, 2, 3, 0, 4, 5)), ('derivatives', bools())], delay_call, delay_rule),
    Entry('from_z', [('unit', UNITS + [bad('m'), bad('x'), bad('Deg')])], fromz_call),
    Entry('spectral estimators', [('estimator', [ok(k) for k in ('MUSIC', 'MinNorm', 'Bartlett', 'MVDR')]), ('R', cov_opts(N)), ('k', ints(1, 2, 3, 4, 5)), ('spectrum', bools()), ('refine', bools()), ('used', bools())],
          spectral_call, spectral_rule, spectral_after),
    Entry('root-MUSIC', [('R', [ok('good', cov(4)), ok('2x2', cov(2)), ok('5x5', cov(5)), ok('fewer rows', cov(4)[:-1]), ok('fewer columns', cov(4)[:, :-1]), ok('vector', cov(4)[0]), ok('3d', cov(4)[None])]),
                         ('k', ints(1, 2, 3, 4, 5, 6)), ('unit', UNITS + [bad('m'), bad('x')]), ('d0', [ok('None', NONE), ok('0.5', 0.5)])], root_call, root_rule, root_after),
    Entry('ESPRIT', [('R', [ok('good', cov(4)), ok('3x3', cov(3)), bad('fewer rows', cov(5)[:-1]), bad('fewer columns', cov(4)[:, :-1])]), ('k', ints(1, 2, 3, 4, 5)),
                     ('displacement', [ok('1', 1), ok('2', 2), ok('3', 3), ok('4', 4), bad('0', 0), bad('-1', -1)]), ('formulation', [ok('ls'), ok('tls'), bad('xls'), bad('LS'), bad('')]),
                     ('weights', [ok('default'), ok('none'), ok('fit'), bad('long'), bad('short'), bad('one'), bad('row'), bad('column'), bad('list'), bad('None'), bad('uniform')]), ('unit', UNITS + [bad('m')])], esprit_call, esprit_rule, esprit_after,
          bound={'quick': 3, 'thorough': 5}),
    Entry('ML', [('estimator', [ok(k) for k in ('AMLEstimator', 'CMLEstimator', 'WSFEstimator')]), ('R', cov_opts(N)), ('k', ints(1, 2, 3, 4, 5)), ('used', bools())], ml_call, ml_rule, ml_after),
    Entry('source limits', [('estimator', [ok(k) for k in ('MUSIC', 'MinNorm', 'AMLEstimator', 'CMLEstimator', 'WSFEstimator', 'Bartlett', 'MVDR')]), ('array', [ok(k) for k in LIMIT_ARRAYS]),
                            ('k', ints(1, 2, 3, 4, 5)), ('R', ints(4, 3, 5)), ('sources', [ok(k) for k in ('ff1', 'ff2', 'nf')])], limit_call, limit_rule),
    Entry('number of sources', [('estimator', [ok(k) for k in ('MUSIC', 'MinNorm', 'RootMUSIC1D', 'AMLEstimator', 'CMLEstimator', 'WSFEstimator', 'Bartlett', 'MVDR')]), ('m', ints(1, 2, 3, 4, 7)), ('k', ints(1, 2, 3, 4, 6, 7, 8))],
          tiny_call, tiny_rule),
    Entry('sparse covariance', [('R', cov_opts(3)), ('noise', bools()), ('sigma', [ok('0.1', 0.1), ok('None', NONE), ok('0', 0.0)]), ('formulation', [ok('None', NONE), ok('penalizedl1'), ok('constrainedl1'), ok('constrainedl2'), bad('lasso'), bad('')]),
                                ('refine', [Opt('no', False), Opt('yes', True, VE)])], scm_call, scm_rule, scm_after),
    Entry('group sparse', [('rows', ints(3, 1, 2, 4)), ('cols', ints(2, 1, 3)), ('refine', bools())], gs_call, gs_rule, gs_after),
    Entry('l1 problem', [('formulation', [ok('penalizedl1'), ok('constrainedl1'), ok('constrainedl2'), bad('l1'), bad('')]), ('nonneg', bools()), ('rows', ints(3, 2, 1)), ('cols', ints(2, 3, 1)), ('b', ints(3, 2, 1)), ('l', [ok('2', 2.0), ok('-1', -1.0)])], l1_call, l1_rule, l1_after),
    Entry('l21 problem', [('complex', bools()), ('rows', ints(3, 2)), ('cols', ints(2, 3)), ('brows', ints(3, 2)), ('bcols', ints(2, 1)), ('l', [ok('0.5', 0.5), ok('0', 0.0), ok('-1', -1.0)])], l21_call, l21_rule),
    Entry('weight function', [('array', CO_OK + CO_BAD)], wf_call),
    Entry('coarray covariance', [('array', CO_OK + CO_BAD), ('R', cov_opts(4)), ('method', [ok('ss'), ok('da'), bad('x'), bad('SS'), bad('')]), ('call', bools())], acm_call, None, acm_after),
    Entry('spatial smoothing', [('m', ints(1, 2, 3, 5)), ('l', ints(*range(-1, 8))), ('fb', bools())], smooth_call, lambda p: None if 1 <= p['l'] <= p['m'] else VE, src_after),
    Entry('SORTE', [('n', ints(1, 2, 3, 4, 5, 6)), ('kind', [ok('vector'), ok('matrix')])], sorte_call, lambda p: VE if p['n'] < 4 else None),
    perf_entry('crb_sto_farfield_1d', False, ARR), perf_entry('crb_det_farfield_1d', True, ARR), perf_entry('crb_stouc_farfield_1d', False, ARR),
    perf_entry('ecov_music_1d', False, ARR_MUSIC, [('perturbations', [ok('all'), ok('known'), ok('none'), bad('some')])]), perf_entry('ecov_coarray_music_1d', False, ARR_CO),
    Entry('powers', [('fn', [ok('unify_p_to_matrix'), ok('unify_p_to_vector')]), ('p', p_opts())], unify_call),
    Entry('reduction', [('mode', MODES + [bad('None', NONE), bad('mean')])], reduce_call),
    Entry('stochastic signals', [('dim', ints(1, 2, 3)), ('C', [ok('1.0', 1.0), ok('0', 0.0), ok('v1', np.ones(1)), ok('v2', np.ones(2)), ok('v3', np.ones(3)), ok('m1', np.eye(1)), ok('m2', np.eye(2)), ok('m3', np.eye(3)), ok('2x3', np.ones((2, 3))), ok('3x2', np.ones((3, 2))),
                                                           ok('3d', np.ones((2, 2, 2))), ok('3d1', np.ones((1, 1, 1)))])], css_call, css_rule),
    Entry('phase signals', [('dim', ints(1, 2, 3)), ('amp', [ok('2.0', 2.0), ok('int', 2), ok('v1', np.ones(1)), ok('v2', np.ones(2)), ok('v3', np.ones(3)), ok('column2', np.ones((2, 1))), ok('column3', np.ones((3, 1))), ok('v4', np.ones(4))])], rps_call, rps_rule),
    Entry('snapshots', [('signal', [ok('2', 2), bad('1', 1, ANY), bad('3', 3, ANY)]), ('noise', [ok('None', NONE), ok('4', 4), bad('3', 3, ANY), bad('5', 5, ANY), bad('2', 2, ANY)])], snap_call),
    Entry('elements', [('element', [ok('isotropic'), ok('plain'), ok('polarized')]), ('shapes', [ok(k) for k in ('same', 'vectors', 'az differs', 'el differs', 'r differs')]), ('polarization', [ok(k) for k in ('none', 'fit', 'short', 'flat')])], elem_call, elem_rule),
    Entry('refinement', [('grid', [ok('ff1'), ok('ff2'), ok('nf'), ok('one1'), ok('one2'), ok('onef')]), ('coords', ints(0, 1, 2, 3)), ('density', ints(1, 2, 5, 0, -1, -7)), ('span', ints(1, 2, 3, 9, 0, -2)), ('what', [ok('axes'), ok('grid')])], refine_call, refine_rule, refine_after),
    Entry('grid units', [('class', [ok('FarField1DSearchGrid'), ok('FarField2DSearchGrid')]), ('unit', [ok(u) for u in ('rad', 'deg', 'sin', 'm', 'x')]), ('range', bools())], gunit_call, gunit_rule),
    Entry('grid base class', [('a0', [Opt('tuple', True), Opt('list', False, VE)]), ('a1', [Opt('tuple', True), Opt('list', False, VE)]), ('a2', [Opt('tuple', True), Opt('list', False, VE)])], gbase_call),
    Entry('khatri_rao', [('ka', ints(0, 1, 2, 3)), ('kb', ints(0, 1, 2, 3))], kr_call, lambda p: None if p['ka'] == p['kb'] else VE),
    Entry('unique_rows', [('x', [ok('matrix'), ok('one row'), bad('vector'), bad('3d')])], ur_call),
    Entry('angle units', [('from', [ok(u) for u in ('rad', 'deg', 'sin', 'm', 'x')]), ('to', [ok(u) for u in ('rad', 'deg', 'sin', 'm', 'y')])], conv_call, conv_rule),
]

HARNESSES = [e.tree() for e in ENTRIES]
