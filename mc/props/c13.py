"""C13 maximum likelihood estimators."""
import functools
import itertools
import math

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['convergence is judged with the default accuracy of the optimiser',
               'unresolved results (the optimiser gave up) carry no estimates and are only allowed where the quantifier says "when resolved"']
METHODS = ['AML', 'CML', 'WSF']


def make_est(name, arr, wl):
    from doatools.estimation import ml
    return {'AML': ml.AMLEstimator, 'CML': ml.CMLEstimator, 'WSF': ml.WSFEstimator}[name](arr, wl)


def placement(kind, locs, unit, how=None):
    if how is None:
        return alpha.SourceSpec(kind, locs, unit).make()
    return alpha.typed_sources(kind, locs, unit, how)[0]


TYPES = alpha.TYPES


class Objective:
    def __init__(self, name, s, kind, unit, wl, R, k):
        self.args = (s, kind, unit, wl)
        self.name, self.R, self.k = name, R, k
        if name == 'WSF':
            lam, E = np.linalg.eigh(R)
            m = len(R)
            sig = sum(lam[:m - k]) / (m - k)
            Es, ls = E[:, m - k:], lam[m - k:]
            self.M = (Es * ((ls - sig) ** 2 / ls)) @ Es.conj().T

    def __call__(self, locs):
        s, kind, unit, wl = self.args
        A = s.steering(kind, locs, unit, wl, 'known')
        m = A.shape[0]
        P = A @ np.linalg.pinv(A)
        Q = np.eye(m) - P
        if self.name == 'CML':
            return np.trace(Q @ self.R).real
        if self.name == 'WSF':
            return np.trace(Q @ self.M).real
        H = P @ self.R @ P + np.trace(Q @ self.R).real / (m - self.k) * Q
        H = 0.5 * (H + H.conj().T)
        sgn, v = np.linalg.slogdet(H)
        return v if sgn.real > 0 else math.inf


# scenarios: kind, true locations in radians/metres, offsets of the guess
def truths(kind, thorough):
    if kind == 'ff1d':
        t = [[0.2], [-0.6, 0.3], [0.5, -0.45], [-0.8, 0.05, 0.9]]
    elif kind == 'ff2d':
        t = [[[0.6, 0.5]], [[-1.4, 0.5], [0.9, 0.8]], [[2.2, 0.3], [-2.4, 0.7]]]
    else:
        t = [[[1.0, 1.8]], [[-1.5, 1.6], [1.2, 2.2]]]
    return t


def reaches_truth(f, g, ft, bounds):
    """Does L-BFGS-B on the reference criterion get from the guess to the truth?"""
    from scipy.optimize import minimize
    shape = np.array(g).shape
    res = minimize(lambda x: f(x.reshape(shape)), np.array(g).ravel(), method='L-BFGS-B', bounds=bounds)
    return res.fun <= ft + 1e-6 * (1 + abs(ft)), res.x.reshape(shape)


def offset(locs, mode, kind, extra=0.0):
    d = [0.0, 0.03, -0.045, 0.06][mode] + extra
    if kind == 'ff1d':
        return [v + d * (-1) ** i for i, v in enumerate(locs)]
    return [[v + d * (-1) ** i, w - d * 0.5] for i, (v, w) in enumerate(locs)]


def conv(locs, kind, unit):
    if kind == 'nf2d':
        return [[float(x) for x in p] for p in locs]
    if kind == 'ff1d':
        return [ref.from_rad(v, unit) for v in locs]
    return [[ref.from_rad(x, unit) for x in p] for p in locs]


UNITS = {'ff1d': ['rad', 'deg', 'sin'], 'ff2d': ['rad', 'deg'], 'nf2d': ['m']}


def check_common(est_obj, ret, s0, l0, R, R0, kind, unit, k, rec):
    require(len(ret) == 2, 'return value of length {}', len(ret))
    require(np.array_equal(R, R0), 'covariance modified')
    require(np.array_equal(s0.locations, l0), 'initial guess modified')
    ok, est = ret
    if not ok:
        require(est is None or len(est) == 0, 'unresolved but estimates {}', est)
        return None
    require(type(est) is type(s0) and est.units == s0.units and est.size == k and est.locations.shape == s0.locations.shape,
            'kind, unit or number of the estimates')
    for (lo, hi), col in zip(s0.valid_ranges, np.asarray(est.locations, float).reshape(k, -1).T):
        require(np.all(col >= lo) and np.all(col <= hi), 'estimates {} outside [{}, {}]', col, lo, hi)
    # retrieval as independent copies
    a = est_obj.get_last_estimates()
    require(type(a) is type(est) and a.units == est.units and np.array_equal(a.locations, est.locations), 'last estimates differ')
    keep = np.array(est.locations, copy=True)
    a.locations[:] = 0
    require(np.array_equal(est.locations, keep) and np.array_equal(est_obj.get_last_estimates().locations, keep),
            'last estimates are not independent')
    est.locations[:] = 0
    require(np.array_equal(est_obj.get_last_estimates().locations, keep), 'returned estimates are not independent')
    rec.step(4)
    return keep


def ideal_cov(s, kind, locs, unit, wl, pw, sigma, corr):
    A = s.steering(kind, locs, unit, wl, 'known')
    k = len(locs)
    P = np.diag([1.0 + pw * i for i in range(k)]).astype(complex)
    if corr and k > 1:
        P[0, 1], P[1, 0] = 0.6 + 0.3j, 0.6 - 0.3j
    return A @ P @ A.conj().T + sigma * np.eye(s.size)


def gen_ideal(c):
    s = c.choose('array', SP.setups(c.thorough))
    kind = c.choose('kind', list(s.kinds))
    unit = c.choose('unit', UNITS[kind])
    t = c.choose('truth', [x for x in truths(kind, c.thorough) if len(x) < s.size])
    mode = c.choose('offset', [1, 2, 3, 0])
    est = c.choose('estimator', METHODS)
    pw = c.choose('power', [0.0, 0.8])
    sigma = c.choose('sigma', [0.3, 0.05])
    corr = c.choose('corr', [False, True])
    wl = c.choose('wl', [1.0, 0.85] if c.thorough else [1.0])
    return s, kind, unit, t, mode, est, pw, sigma, corr, wl


def run_ideal(sc, rec):
    s, kind, unit, t, mode, name, pw, sigma, corr, wl = sc[:10]
    k = len(t)
    if s.sp.loc.shape[1] < 2 and kind == 'ff2d':
        raise Skip()
    locs = conv(t, kind, unit)
    g = conv(offset(t, mode, kind), kind, unit)
    Rn = ideal_cov(s, kind, locs, unit, wl, pw, sigma, corr)
    R = Rn * (sc[10] if len(sc) > 10 else 1.0)
    R0 = R.copy()
    s0 = placement(kind, g, unit)
    l0 = s0.locations.copy()
    o = make_est(name, s.make(), wl)
    if True:
        try:
            o.get_last_estimates()
        except RuntimeError:
            pass
        else:
            require(False, 'last estimates before any estimation')
    require(o.get_max_resolvable_sources() == s.size - 1, 'maximum number of sources')
    ret = o.estimate(R, s0)
    # the minimisers do not depend on the scale of the covariance
    f = Objective(name, s, kind, unit, wl, Rn, k)
    bounds = list(s0.valid_ranges) * k

    def from_elsewhere(e):
        return make_est(name, s.make(), wl).estimate(R, placement(kind, conv(offset(t, mode, kind, e), kind, unit), unit))
    scen = 'resolved'
    if not ret[0]:
        # A line search may stall in rounding noise; starting from one of
        # several slightly different guesses must work then.
        scen = 'unresolved'
        require(any(from_elsewhere(e)[0] for e in (0.011, -0.013, 0.017, 0.007)), 'not resolved although started at {} near the truth {}', g, locs)
    loc = check_common(o, ret, s0, l0, R, R0, kind, unit, k, rec)
    rec.count(scen)
    if loc is None:
        return
    f0, f1, ft = f(np.array(g)), f(loc), f(np.array(locs))
    require(f1 <= f0 + 1e-9 * (1 + abs(f0)), 'criterion increased from {} to {}', f0, f1)
    if f1 > ft + 3e-4 * (1 + abs(ft)):
        if not reaches_truth(f, g, ft, bounds)[0]:
            rec.count('other local minimum')
            return
        # The path of the search is decided by rounding when many sources
        # interact: ending in another genuine local minimum is no error if
        # slightly different guesses lead to the truth.
        y = reaches_truth(f, loc, ft, bounds)[1]
        if f(y) >= f1 - 3e-4 * (1 + abs(f1)):
            require(any(ok and f(np.asarray(x.locations)) <= ft + 3e-4 * (1 + abs(ft)) for ok, x in map(from_elsewhere, (0.001, -0.001, 0.003, 0.011, -0.007, 0.017))),
                    'criterion {} at the estimates, {} at the truth, also from other guesses', f1, ft)
            rec.count('another local minimum nearby')
            return
    require(f1 <= ft + 3e-4 * (1 + abs(ft)), 'criterion {} at the estimates, {} at the truth', f1, ft)
    if kind != 'nf2d':
        near = 6e-3 if k < 5 else 3e-2      # flat criteria of many sources
        got = np.array([[ref.to_rad(x, unit) for x in np.ravel(p)] for p in loc])
        want = np.array([[float(x) for x in np.ravel(p)] for p in t])
        if np.any(np.abs(got - want) > near):
            x = reaches_truth(f, g, ft, bounds)[1]
            if np.max(np.abs(x - np.array(locs))) > near:
                rec.count('another global minimum')     # K = M - 1 correlated sources
                return
            # The criterion does not know the order of the sources: a long
            # first step may exchange them, but not from every guess.
            if any(np.all(np.abs(got[list(q)] - want) <= near) for q in itertools.permutations(range(k))):
                for ok, x in map(from_elsewhere, (0.011, -0.013, 0.017, 0.007)):
                    if ok and np.all(np.abs(np.array([[ref.to_rad(v, unit) for v in np.ravel(p)] for p in np.asarray(x.locations, float).reshape(k, -1)]) - want) <= near):
                        rec.count('sources exchanged by a long step')
                        return
        require(np.all(np.abs(got - want) <= near), 'estimates {} (rad) expected {}', got.tolist(), want.tolist())
    rec.state(s.name, kind, unit, t, mode, name, pw, sigma, corr)


# covariances of measurements in other units
def gen_ideal_scale(c):
    s = c.choose('array', SP.setups()[::2] + SP.setups()[7:])
    kind = c.choose('kind', list(s.kinds))
    unit = c.choose('unit', UNITS[kind])
    t = c.choose('truth', [x for x in truths(kind, c.thorough) if len(x) < s.size])
    mode = c.choose('offset', [1, 2, 3] if c.thorough else [1, 2])
    est = c.choose('estimator', METHODS)
    return (s, kind, unit, t, mode, est, c.choose('power', [0.8]), c.choose('sigma', [0.3, 0.01]), c.choose('corr', [False, True]), 1.0,
            c.choose('scale', [1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12]))


# more sensors and more sources than the small configurations
def gen_ideal_large(c):
    s = c.choose('array', SP.large_setups())
    kind = c.choose('kind', [k for k in s.kinds if k != 'nf2d'])
    unit = c.choose('unit', UNITS[kind])
    if kind == 'ff1d':
        t = c.choose('truth', [[math.asin(-0.85 + 1.7 * ((i * q) % n) / (n - 1)) for i in range(n)] for n, q in ((4, 3), (5, 2), (6, 5), (7, 3))])
    else:
        t = c.choose('truth', [[[0.6, 0.5], [-1.4, 0.5], [2.4, 0.6]], [[0.2, 0.3], [1.7, 0.6], [-2.8, 0.4], [-1.2, 0.7]]])
    return (s, kind, unit, t, c.choose('offset', [1, 2]), c.choose('estimator', METHODS), c.choose('power', [0.0, 0.8]), c.choose('sigma', [0.3, 0.01]),
            c.choose('corr', [False, True]), 1.0)


def gen_ideal_unit(c):
    f = c.choose('unit of length', SP.UNITS)
    s = c.choose('array', SP.setups_at(f))
    kind = c.choose('kind', [k for k in s.kinds if k != 'nf2d'])
    t = c.choose('truth', [x for x in truths(kind, c.thorough) if len(x) < s.size])
    return (s, kind, c.choose('unit', UNITS[kind]), t, c.choose('offset', [1, 2]), c.choose('estimator', METHODS), 0.8, 0.3, c.choose('corr', [False, True]), f)


def gen_any(c):
    s = c.choose('array', SP.setups(c.thorough))
    kind = c.choose('kind', list(s.kinds))
    unit = c.choose('unit', UNITS[kind])
    t = c.choose('guess', [x for x in truths(kind, c.thorough) + ([[-1.2, 0.7], [1.5]] if kind == 'ff1d' else []) if len(x) < s.size])
    est = c.choose('estimator', METHODS)
    return s, kind, unit, t, est, c.choose('R', ['one', 'two', 'three', 'pd', 'realpd']), c.choose('scale', [1.0, 1e-6] + ([1e-12, 1e4] if c.thorough else []))


# covariances and guesses of other types and memory layouts
def gen_typed(c):
    s = c.choose('array', [SP.setups()[i] for i in (0, 3, 6)])
    kind = c.choose('kind', list(s.kinds))
    gt, unit = c.choose('guess', [(None, u) for u in UNITS[kind][:1]] + [(t, u) for t in alpha.LAYOUTS + ['float32'] for u in UNITS[kind]] + ([(t, u) for t in TYPES[:2] for u in UNITS[kind] if u in ('deg', 'm')]))
    t = c.choose('guess', [x for x in truths(kind, c.thorough) if len(x) < s.size])
    r, lay = c.choose('R', [('two', None)] if gt else [('int', None), ('diag', None), ('near-real', None), ('near-white', None)] + [(r, x) for r in ('two-corr', 'int') for x in alpha.COV_LAYOUTS])
    return s, kind, unit, t, c.choose('estimator', METHODS), r, 1.0, lay, gt


def not_minimal(f, loc, kind, unit, s0):
    """Local minimality along every feasible coordinate direction."""
    f1 = f(loc)
    scale = {'rad': 1.0, 'deg': 57.3, 'sin': 1.0, 'm': 1.0}[unit]
    flat = np.asarray(loc, float).reshape(s0.size, -1)
    for i in range(flat.shape[0]):
        for j in range(flat.shape[1]):
            lo, hi = s0.valid_ranges[j]
            for sg in (-1, 1):
                x = flat.copy()
                x[i, j] += sg * 2e-3 * scale
                if lo <= x[i, j] <= hi:
                    v = f(x.reshape(np.asarray(loc).shape))
                    if v < f1 - 2e-4 * (1 + abs(f1)) * (1 if kind != 'nf2d' else 3):
                        return ('not a local minimiser: {} at the estimates, {} after moving source {} by {}', f1, v, i, sg * 2e-3 * scale)
    return None


def run_any(sc, rec):
    s, kind, unit, t, name, r, scale = sc[:7]
    lay, gt = sc[7:] or (None, None)
    if s.sp.loc.shape[1] < 2 and kind == 'ff2d':
        raise Skip()
    wl = 1.0
    k = len(t)
    Rn = SP.cov(s, r, wl, SP.Grid('x', kind, unit, [[0.0]]))
    R = alpha.relayout(Rn * scale if scale != 1.0 else Rn, lay)
    R0 = R.copy()
    g = conv(t, kind, unit)
    if gt in TYPES:
        g = np.array(g).astype(gt).astype(float).tolist()
    s0 = placement(kind, g, unit, gt)
    l0 = s0.locations.copy()
    o = make_est(name, s.make(), wl)
    calls = []
    ret = o.estimate(R, s0, callback=lambda *a, **kw: calls.append(1), options={'maxiter': 200})
    loc = check_common(o, ret, s0, l0, R, R0, kind, unit, k, rec)
    f = Objective(name, s, kind, unit, wl, Rn, k)
    if loc is None:
        rec.count('unresolved')
        return
    rec.count('resolved')
    moved = not ref.close(np.asarray(loc), np.array(g), 1e-6)
    require(calls or not moved, 'callback option was not passed to the optimiser')
    f0, f1 = f(np.array(g)), f(loc)
    sv = np.linalg.svd(s.steering(kind, loc, unit, wl, 'known'), compute_uv=False)
    if sv[-1] < 1e-5 * sv[0]:
        rec.count('coinciding sources: rank decided by rounding')
        return
    require(f1 <= f0 + 1e-9 * (1 + abs(f0)), 'criterion increased from {} to {}', f0, f1)
    if sv[-1] < 0.05 * sv[0]:
        rec.count('merged sources: criterion undefined')
        return
    bad = not_minimal(f, loc, kind, unit, s0)
    if bad:
        # L-BFGS-B itself may stall at a point that is no minimiser (its
        # direction orthogonal to the gradient at a corner of the bounds).
        # That is decided by rounding; it must not happen from most guesses.
        fine = 0
        for i, e in enumerate((0.011, -0.013, 0.023, -0.031, 0.007, 0.041, -0.019)):
            o2, x2 = make_est(name, s.make(), wl).estimate(R, placement(kind, conv(offset(t, 0, kind, e), kind, unit), unit), options={'maxiter': 200})
            if not o2:
                continue
            sv = np.linalg.svd(s.steering(kind, np.asarray(x2.locations), unit, wl, 'known'), compute_uv=False)
            if sv[-1] >= 0.05 * sv[0]:
                fine += 1 if not not_minimal(f, np.asarray(x2.locations), kind, unit, s0) else -1
        require(fine > 0, *bad)
        rec.count('optimiser stalled')
        return
    rec.state(s.name, kind, unit, t, name, r, scale, lay, gt)


def gen_opt(c):
    return c.choose('estimator', METHODS), c.choose('option', ['maxiter0', 'maxiter1', 'maxiter2', 'maxiter3', 'maxiter4', 'maxfun', 'loose', 'tight', 'eps', 'eps coarse']), c.choose('unit', ['rad', 'deg', 'sin'])


def run_opt(sc, rec):
    """Options reach the optimiser: their effect is observable."""
    name, opt, unit = sc
    s = SP.setups()[0]
    t = [-0.6, 0.3]
    locs = conv(t, 'ff1d', unit)
    g = conv([-0.7, 0.42], 'ff1d', unit)
    R = ideal_cov(s, 'ff1d', locs, unit, 1.0, 0.5, 0.2, False)
    o = make_est(name, s.make(), 1.0)
    f = Objective(name, s, 'ff1d', unit, 1.0, R, 2)
    its = []
    kw = {'eps': dict(options={'eps': 1e-4}, callback=lambda x, *a: its.append(np.array(x, copy=True))),
          'eps coarse': dict(options={'eps': 1e-2 * (57.3 if unit == 'deg' else 1)}, callback=lambda x, *a: its.append(np.array(x, copy=True))),
          'maxiter2': dict(options={'maxiter': 2}), 'maxiter3': dict(options={'maxiter': 3}), 'maxiter4': dict(options={'maxiter': 4}),
          'maxiter1': dict(options={'maxiter': 1}), 'maxiter0': dict(options={'maxiter': 0}), 'maxfun': dict(options={'maxfun': 1}),
          'loose': dict(tol=1e3), 'tight': dict(options={'ftol': 1e-13, 'gtol': 1e-7})}[opt]
    ok, est = o.estimate(R, placement('ff1d', g, unit), **kw)
    rec.step()
    if opt in ('maxiter0', 'maxiter1', 'maxfun'):
        require(not ok and est is None, 'resolved although the optimiser was stopped early')
    elif opt.startswith('maxiter'):
        if ok:      # only a converged search may be reported as resolved
            ok2, est2 = make_est(name, s.make(), 1.0).estimate(R, placement('ff1d', g, unit))
            f0, f1 = f(np.array(g)), f(np.array(est2.locations)) if ok2 else -math.inf
            require(not ok2 or f(np.array(est.locations)) <= f1 + 1e-4 * (f0 - f1), 'resolved although the search was stopped after {} iterations', opt[7:])
            rec.count('converged early')
        else:
            require(est is None, 'unresolved but estimates')
    elif opt == 'loose':
        require(ok and np.max(np.abs(np.array(est.locations) - np.array(locs))) >
                1e-3 * np.max(np.abs(np.array(g) - np.array(locs))), 'tolerance ignored')
    elif opt.startswith('eps') and ok:
        # the minimiser, not a point probed by a finite difference
        got, want = np.sort(np.ravel(est.locations)), np.sort(np.ravel(its[-1])) if its else None
        require(want is None or ref.close(got, want, 1e-9), 'estimates {} but the optimiser ended at {}', got, want)
        rec.count('last iterate compared')
    elif ok:
        f0 = f(np.array(g))
        require(f(est.locations) <= f0 + 1e-9 * (1 + abs(f0)), 'criterion increased')
    rec.state(name, opt, unit, ok)


# ---------------------------------------------------------------- likelihood
def gen_nll(c):
    s = c.choose('array', SP.setups(c.thorough))
    kind = c.choose('kind', list(s.kinds))
    unit = c.choose('unit', UNITS[kind])
    t = c.choose('locs', truths(kind, c.thorough))
    pw = c.choose('powers', ['equal', 'unequal', 'zero', 'negative'])
    return s, kind, unit, t, pw, c.choose('sigma', [0.3, 1e-3, 5.0, 0.0]), c.choose('scale', [1.0, 1e-6, 1e5]), c.choose('R', ['ideal', 'other', 'real'])


def run_nll(sc, rec):
    from doatools.estimation.ml import f_nll_stouc
    s, kind, unit, t, pw, sigma, scale, r = sc
    if s.sp.loc.shape[1] < 2 and kind == 'ff2d':
        raise Skip()
    k, m = len(t), s.size
    locs = conv(t, kind, unit)
    p = scale * np.array({'equal': [1.0] * k, 'unequal': [1.0 + 0.7 * i for i in range(k)], 'zero': [0.0] * k, 'negative': [-1.0] * k}[pw])
    sig = sigma * scale
    A = s.steering(kind, locs, unit, 0.9, 'all')
    S = (A * p) @ A.conj().T + sig * np.eye(m)
    R = scale * (s.steering(kind, locs, unit, 0.9, 'all') @ A.conj().T + np.eye(m) if r == 'ideal' else ref.hermitian(m) + 3 * m * np.eye(m))
    if r == 'real':
        R = R.real.copy()
    R0, p0 = R.copy(), p.copy()
    src = placement(kind, locs, unit)
    l0 = src.locations.copy()
    lam = np.linalg.eigvalsh(S / scale)
    if np.min(np.abs(lam)) < 1e-6:
        raise Skip()                # singular: decided by rounding
    sgn, ld = np.linalg.slogdet(S / scale)
    if lam[0] < 0 and sgn.real > 0:
        raise Skip()                # an even number of negative eigenvalues: not detected by the sign of the determinant
    got = f_nll_stouc(R, s.make(), src, 0.9, p, sig)
    rec.step()
    require(np.array_equal(R, R0) and np.array_equal(p, p0) and np.array_equal(src.locations, l0), 'inputs modified')
    require(np.ndim(got) == 0 and np.isrealobj(got), 'the negative log-likelihood {!r} is not a real number', got)
    if lam[0] < 0:
        require(got == math.inf, 'negative log-likelihood {} for a covariance that is not positive definite', got)
    else:
        want = m * math.log(scale) + np.log(lam).sum() + np.trace(np.linalg.solve(S / scale, R / scale)).real
        require(abs(got - want) <= 1e-8 * (1 + abs(want)), 'negative log-likelihood {} expected {}', got, want)
    rec.count('not positive definite' if lam[0] < 0 else 'finite')
    rec.state(s.name, kind, unit, t, pw, sigma, scale, r)


HARNESSES = [Tree('scale', gen_ideal_scale, run_ideal, bound={'quick': 5, 'thorough': None}), Tree('ideal-large', gen_ideal_large, run_ideal, bound={'quick': 4, 'thorough': None}), Tree('units of length', gen_ideal_unit, run_ideal), Tree('likelihood', gen_nll, run_nll), Tree('ideal', gen_ideal, run_ideal), Tree('any', gen_any, run_any), Tree('typed', gen_typed, run_any), Tree('options', gen_opt, run_opt)]
