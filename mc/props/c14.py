"""C14 sparse recovery: every returned point is certified optimal by weak
duality, so the oracle needs no solver of its own."""
import functools
import itertools
import math

import numpy as np
from scipy.optimize import nnls

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Graph, Skip, Tree, require

ASSUMPTIONS = ['optimality is certified up to the accuracy of the default solvers (duality gap below 1e-4 of the objective scale)',
               'residual bounds within 1 % of the smallest possible residual are outside the quantifier']
FORMS = ['penalizedl1', 'constrainedl1', 'constrainedl2']
GAP = 1e-4
FEAS = 1e-4


# ------------------------------------------------------------ certificates
def min_residual(A, b, nonneg):
    if nonneg:
        return nnls(A, b)[1]
    return float(np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0]))


def better_dual(form, A, b, l, nonneg):
    """A better lower bound of the optimum, from the dual problem.  Whatever
    the solver returns is made dual feasible before it is used, so the bound
    stays valid even if the solver is wrong."""
    import cvxpy as cp
    n = np.linalg.norm
    y = cp.Variable(b.shape, complex=np.iscomplexobj(A) or np.iscomplexobj(b))
    if form == 'l21':
        c = [cp.norm(A[:, i].conj() @ y) <= l for i in range(A.shape[1])]
        pr = cp.Problem(cp.Maximize(cp.real(cp.sum(cp.multiply(b.conj(), y))) - 0.5 * cp.sum_squares(y)), c)
    elif form == 'constrainedl1':
        c = A.T @ y
        pr = cp.Problem(cp.Maximize(2 * b @ y - cp.sum_squares(y) - 2 * l * (cp.max(cp.pos(c)) if nonneg else cp.norm_inf(c))))
    else:
        bound = l if form == 'penalizedl1' else 1
        c = A.T @ y
        obj = b @ y - (0.5 * cp.sum_squares(y) if form == 'penalizedl1' else l * cp.norm(y))
        pr = cp.Problem(cp.Maximize(obj), [c <= bound] + ([] if nonneg else [c >= -bound]))
    try:
        pr.solve(solver='CLARABEL')
    except cp.error.SolverError:
        return -math.inf
    v = y.value
    if v is None:
        return -math.inf
    if form == 'l21':
        top = np.max(np.linalg.norm((A.conj().T @ v).reshape(A.shape[1], -1), axis=1))
        v = v * min(1.0, l / top) if top else v
        return 0.5 * n(b) ** 2 - 0.5 * n(b - v) ** 2
    t = A.T @ v
    top = max(0.0, np.max(t)) if nonneg else np.max(np.abs(t))
    if form == 'constrainedl1':
        return 2 * b @ v - v @ v - 2 * l * top
    bound = l if form == 'penalizedl1' else 1
    v = v * min(1.0, bound / top) if top else v
    return b @ v - 0.5 * v @ v if form == 'penalizedl1' else b @ v - l * n(v)


def certify_l1(form, nonneg, A, b, l, x, what=''):
    """Violation unless x is feasible and its objective is optimal."""
    b = b.ravel()
    x = x.ravel()
    r = b - A @ x
    sc = 1 + np.linalg.norm(b) ** 2
    if nonneg:
        require(np.all(x >= -FEAS * (1 + np.max(np.abs(x)))), '{} negative solution {}', what, x)
    corr = A.T @ r
    top = max(0.0, np.max(corr)) if nonneg else np.max(np.abs(corr))
    if form == 'penalizedl1':
        P = 0.5 * r @ r + l * np.sum(np.abs(x))
        if l == 0:
            D = 0.5 * min_residual(A, b, nonneg) ** 2
        else:
            th = r * (1.0 if top <= l else l / top)
            D = 0.5 * b @ b - 0.5 * (b - th) @ (b - th)
        if P - D > GAP * sc and l > 0:
            D = max(D, better_dual(form, A, b, l, nonneg))
        tol = GAP * max(sc, l * (1 + np.linalg.norm(b)))      # x itself is only accurate to about 1e-5
        require(P - D <= tol, '{} objective {} but the optimum is at most {} higher than {}', what, P, tol, D)
    elif form == 'constrainedl1':
        require(np.sum(np.abs(x)) <= l + 3 * FEAS * (1 + l + np.linalg.norm(b)), '{} l1 norm {} exceeds {}', what, np.sum(np.abs(x)), l)
        gap = -2 * corr @ x + 2 * l * top
        if gap > 5 * GAP * sc * (1 + l):
            gap = min(gap, r @ r - better_dual(form, A, b, l, nonneg))
        require(gap <= 5 * GAP * sc * (1 + l), '{} objective {} may be improved by {} (l = {}, x = {})', what, r @ r, gap, l, x)
    else:
        require(np.linalg.norm(r) <= l + 3 * FEAS * (1 + l + np.linalg.norm(b)), '{} residual {} exceeds {}', what, np.linalg.norm(r), l)
        P = np.sum(np.abs(x))
        D = 0.0
        if top > 0:
            D = max(0.0, (b @ r - l * np.linalg.norm(r)) / top)
        if P - D > 10 * GAP * (1 + P):
            D = max(D, better_dual(form, A, b, l, nonneg))
        require(P - D <= 10 * GAP * (1 + P), '{} l1 norm {} but the bound is {}', what, P, D)


def certify_l21(A, B, l, X, what=''):
    r = B - A @ X
    sc = 1 + np.linalg.norm(B) ** 2
    P = 0.5 * np.linalg.norm(r) ** 2 + l * np.sum(np.linalg.norm(X, axis=1))
    if l == 0:
        s = np.linalg.lstsq(A, B, rcond=None)[0]
        D = 0.5 * np.linalg.norm(B - A @ s) ** 2
    else:
        top = np.max(np.linalg.norm(A.conj().T @ r, axis=1))
        th = r * (1.0 if top <= l else l / top)
        D = 0.5 * np.linalg.norm(B) ** 2 - 0.5 * np.linalg.norm(B - th) ** 2
    if P - D > GAP * sc and l > 0:
        D = max(D, better_dual('l21', A, B, l, False))
    require(P - D <= GAP * sc, '{} objective {} but the bound is {}', what, P, D)


# --------------------------------------------------------------- problems
def dictionary(m, k, kind):
    A = ref.generic(m, k, 2, False)
    if kind == 'dup' and k > 1:
        A[:, -1] = A[:, 0]
    elif kind == 'zerocol':
        A[:, 0] = 0
    elif kind == 'orth':
        A = np.eye(m, k)
    elif kind == 'int':
        A = np.round(2 * A)
    elif kind == 'tall-scale':
        A = 5 * A
    return A


def observation(m, kind, A):
    if kind == 'zero':
        return np.zeros((m, 1))
    if kind == 'range':
        x = np.zeros((A.shape[1], 1))
        x[0], x[-1] = 1.5, 0.7
        return A @ x
    if kind == 'neg':
        return -np.abs(ref.generic(m, 1, 4, False)) - 0.1
    if kind == 'int':
        return np.round(6 * ref.generic(m, 1, 9, False) + 1)
    return 2 * ref.generic(m, 1, 9, False) + 0.2


def problem(cls, *a, **kw):
    from doatools.optim import l1lsq
    return getattr(l1lsq, cls)(*a, **kw)


SIZES = [(1, 1), (2, 2), (2, 4), (3, 3), (4, 2), (4, 6)]


def gen_l1(c):
    m, k = c.choose('size', SIZES + ([(1, 3), (3, 1), (5, 5), (5, 9), (7, 4)] if c.thorough else []))
    form = c.choose('formulation', FORMS)
    nonneg = c.choose('nonneg', [False, True])
    d = c.choose('dictionary', ['generic', 'dup', 'zerocol', 'orth', 'int', 'tall-scale'])
    o = c.choose('observation', ['generic', 'zero', 'range', 'neg'])
    l = c.choose('l', [0.3, 0.0, 0.02, 1.0, 20.0])
    return m, k, form, nonneg, d, o, l


def gen_l1_large(c):
    m, k = c.choose('size', [(8, 20), (20, 8), (30, 30), (16, 60)] + ([(40, 80), (64, 33)] if c.thorough else []))
    form = c.choose('formulation', FORMS)
    return (m, k, form, c.choose('nonneg', [False, True]), c.choose('dictionary', ['generic', 'dup', 'orth']),
            c.choose('observation', ['generic', 'range', 'neg']), c.choose('l', [0.3, 0.02, 2.0]))


def radius(A, b, nonneg, l, form):
    """constrainedl2: l is relative to the smallest residual."""
    if form != 'constrainedl2':
        return l
    lo = min_residual(A, b.ravel(), nonneg)
    return lo + l if l else lo * 0.5


def run_l1(sc, rec):
    m, k, form, nonneg, d, o, l = sc[:7]
    f = sc[7] if len(sc) > 7 else 1.0       # all problems are homogeneous in (b, l, x)
    A = dictionary(m, k, d)
    b = observation(m, o, A)
    lo = min_residual(A, b.ravel(), nonneg)
    l = radius(A, b, nonneg, l, form)
    if form == 'constrainedl2' and l <= lo * 1.01 and l > lo * 0.99 - 1e-3:
        raise Skip()                    # on the boundary of feasibility
    if d == 'zerocol' and k == 1 and form == 'constrainedl2':
        raise Skip()
    bf = b * f
    Ain, bf = (typed(A, sc[8]), typed(bf, sc[8])) if len(sc) > 8 else (A, bf)
    A0, b0 = A.copy(), bf.copy()
    p = problem('L1RegularizedLeastSquaresProblem', m, k, form, nonneg)
    x = p.solve(Ain, bf, l * f) if form == 'constrainedl2' and l < lo else solve(p, Ain, bf, l * f)
    rec.step()
    require(np.array_equal(Ain, A0) and np.array_equal(bf, b0), 'inputs modified')
    x = np.asarray(x) / f
    if form == 'constrainedl2' and l < lo:
        rec.count('infeasible')
        require(not np.any(x), 'solution {} of an infeasible problem', x)
    else:
        require(np.size(x) == k, 'solution of shape {}', np.shape(x))
        certify_l1(form, nonneg, A, b, l, np.asarray(x), '%s nonneg=%s' % (form, nonneg))
    if form == 'penalizedl1' and not nonneg and l == 0.3:
        d_form = problem('L1RegularizedLeastSquaresProblem', m, k)
        certify_l1(form, nonneg, A, b, l, np.asarray(solve(d_form, Ain, bf, l * f)) / f, 'default problem')
    rec.state(*sc)


def typed(x, how):
    if how in alpha.TYPES:
        return x.astype(how)
    return alpha.relayout(x, how)


def gen_l1_typed(c):
    m, k = c.choose('size', [(2, 4), (4, 2), (4, 6)])
    how = c.choose('type', ['int64', 'int16'] + alpha.LAYOUTS)
    return (m, k, c.choose('formulation', FORMS), c.choose('nonneg', [False, True]), c.choose('dictionary', ['int', 'orth']) if how in alpha.TYPES else 'generic',
            'int' if how in alpha.TYPES else 'generic', c.choose('l', [0.3, 1.0]), 1.0, how)


def gen_l21_typed(c):
    m, k, n = c.choose('size', [(2, 3, 1), (3, 5, 3), (4, 4, 2)])
    how = c.choose('type', ['int64', 'int16'] + alpha.LAYOUTS)
    cp = c.choose('complex', [False, True])
    d = 'int' if how in alpha.TYPES else c.choose('dictionary', ['generic', 'real'] if cp else ['generic'])
    return m, k, n, cp and d != 'int', d, 'int' if d == 'int' else c.choose('observation', ['generic', 'range']), c.choose('l', [0.3, 1.0]), 1.0, how


OTHERS = ({'solver': 'CLARABEL'}, {'solver': 'SCS', 'eps': 1e-8, 'max_iters': 100000})


def solve(p, *a):
    """Solves; a solver that stops short of its accuracy is not the library's
    doing, so another one is tried."""
    x = p.solve(*a)
    for o in OTHERS:
        if p.solved:
            break
        x = p.solve(*a, **o)
    return x


def gen_l21(c):
    m, k, n = c.choose('size', [(1, 1, 1), (2, 3, 1), (3, 2, 2), (3, 5, 3), (4, 4, 2)] + ([(2, 6, 5), (6, 4, 1), (5, 9, 4)] if c.thorough else []))
    cp = c.choose('complex', [False, True])
    d = c.choose('dictionary', ['generic', 'dup', 'zerocol', 'real'] if cp else ['generic', 'dup', 'zerocol', 'int'])
    o = c.choose('observation', ['generic', 'zero', 'range'])
    l = c.choose('l', [0.3, 0.0, 0.02, 1.0, 30.0])
    return m, k, n, cp, d, o, l


def gen_l21_large(c):
    m, k, n = c.choose('size', [(6, 20, 8), (8, 40, 3), (12, 9, 20), (10, 61, 1)] + ([(9, 90, 12), (16, 40, 33)] if c.thorough else []))
    cp = c.choose('complex', [False, True])
    return m, k, n, cp, c.choose('dictionary', ['generic', 'dup', 'real'] if cp else ['generic', 'dup']), c.choose('observation', ['generic', 'range']), c.choose('l', [0.3, 0.05, 3.0])


def l21_data(m, k, n, cp, d, o):
    A = ref.generic(m, k, 2, cp)
    if d == 'dup' and k > 1:
        A[:, -1] = A[:, 0]
    elif d == 'zerocol':
        A[:, 0] = 0
    elif d == 'real':
        A = A.real
    elif d == 'int':
        A = np.round(2 * A)
    if o == 'zero':
        B = np.zeros((m, n))
    elif o == 'int':
        B = np.round(5 * ref.generic(m, n, 7, False))
    elif o == 'range':
        X = np.zeros((k, n), dtype=complex if cp else float)
        X[-1] = ref.generic(1, n, 1, cp) + 1
        B = A @ X
    else:
        B = ref.generic(m, n, 7, cp)
    return A, B


def run_l21(sc, rec):
    m, k, n, cp, d, o, l = sc[:7]
    f = sc[7] if len(sc) > 7 else 1.0
    A, B = l21_data(m, k, n, cp, d, o)
    Bf = B * f
    if len(sc) > 8:
        A, Bf = typed(A, sc[8]), typed(Bf, sc[8])
    A0, B0 = A.copy(), Bf.copy()
    X = solve(problem('L21RegularizedLeastSquaresProblem', m, k, n, cp), A, Bf, l * f) / f
    rec.step()
    require(np.array_equal(A, A0) and np.array_equal(Bf, B0), 'inputs modified')
    require(X.shape == (k, n), 'solution of shape {}', X.shape)
    certify_l21(A, B, l, X, 'l21 complex=%s' % cp)
    if not cp:
        require(not np.iscomplexobj(X), 'the solution of a real problem is complex')
        X = solve(problem('L21RegularizedLeastSquaresProblem', m, k, n), A, Bf, l * f) / f
        certify_l21(A, B, l, X, 'l21 default')
        require(not np.iscomplexobj(X), 'the solution of a real problem is complex')
    rec.state(*sc)


# reuse: histories of solves on one object
DATA = [('generic', 'generic', 0.3), ('orth', 'range', 1.0), ('int', 'neg', 0.05), ('dup', 'generic', 0.0), ('zerocol', 'zero', 0.5)]


def reuse(form, nonneg):
    def run(hist, rec):
        m, k = 3, 4
        p = problem('L1RegularizedLeastSquaresProblem', m, k, form, nonneg)
        kept = []
        A, b = np.zeros((m, k)), np.zeros((m, 1))       # the caller fills the same matrices again
        for i in hist:
            d, o, l = DATA[i]
            A[...] = dictionary(m, k, d)
            b[...] = np.reshape(observation(m, o, A), b.shape)
            lo = min_residual(A, b.ravel(), nonneg)
            l = radius(A, b, nonneg, l, form)
            x = np.asarray(p.solve(A, b, l) if form == 'constrainedl2' and l <= lo * 1.01 else solve(p, A, b, l))
            rec.step()
            if form == 'constrainedl2' and l <= lo * 1.01:
                if lo > 1e-2:
                    require(not np.any(x), 'solution {} of an infeasible problem', x)
            else:
                certify_l1(form, nonneg, A, b, l, x, 'solve %r' % (i,))
            kept.append((x, x.copy()))
            for y, y0 in kept:
                require(np.array_equal(y, y0), 'an earlier solution changed')
        return tuple(hist), list(range(len(DATA)))
    return Graph('reuse-%s-%s' % (form, 'nonneg' if nonneg else 'signed'), run, {'quick': 3, 'thorough': 4})


def reuse_l21(cp):
    data = [('generic', 'generic', 0.3), ('dup', 'range', 1.0), ('zerocol', 'generic', 0.0), ('generic', 'zero', 0.1)]

    def run(hist, rec):
        p = problem('L21RegularizedLeastSquaresProblem', 3, 4, 2, cp)
        A, B = np.zeros((3, 4), complex if cp else float), np.zeros((3, 2), complex if cp else float)
        for i in hist:
            d, o, l = data[i]
            A[...], B[...] = l21_data(3, 4, 2, cp, d, o)
            certify_l21(A, B, l, solve(p, A, B, l), 'solve %r' % (i,))
            rec.step()
        return tuple(hist), list(range(len(data)))
    return Graph('reuse-l21-%s' % ('complex' if cp else 'real'), run, {'quick': 3, 'thorough': 4})


# --------------------------------------------------------------- estimators
def est_grids(thorough):
    g = list(SP.grids(thorough))
    if not thorough:
        g = [x for x in g if x.name not in ('ff2d-rad',)]
    return g


def choose_peaks(sp):
    """Peaks of the default finder. The solver leaves noise around zero."""
    return SP.peaks(sp)


def check_estimates(grid, ret, k, rec):
    resolved, est, sp = ret
    require(sp.shape == grid.shape, 'spectrum of shape {}', sp.shape)
    pk = choose_peaks(sp)
    if pk is None:
        rec.count('ties')
        return
    require(bool(resolved) == (len(pk) >= k), 'resolved={} with {} peaks for {} sources', resolved, len(pk), k)
    rec.count('resolved' if resolved else 'unresolved')
    if not resolved:
        require(est is None, 'estimates although unresolved')
        return
    sel = SP.top_k(sp, pk, k)
    if sel is None:
        return
    pts = np.array(grid.points)[sel]
    require(isinstance(est, grid.placement_class()) and tuple(est.units) == tuple(grid.units), 'kind or unit of the estimates')
    require(ref.close(np.asarray(est.locations).ravel(), pts.ravel(), 1e-9), 'estimates {} expected {}', est.locations.tolist(), pts.tolist())


def gen_cov(c):
    s = c.choose('array', SP.setups(c.thorough))
    g = c.choose('grid', [x for x in est_grids(c.thorough) if x.kind in s.kinds])
    form = c.choose('formulation', FORMS)
    known = c.choose('noise known', [False, True])
    r = c.choose('R', ['two', 'one', 'pd', 'realpd', 'three'] if c.thorough else ['two', 'pd', 'three'])
    l = c.choose('l', ['mid', 'small', 'large', 'infeasible'] if form == 'constrainedl2' else ['mid', 'small', 'large'])
    k = c.choose('k', [2, 1] if form == 'penalizedl1' or c.thorough else [1 + len(r) % 2])
    return s, g, form, known, r, l, k, c.choose('sigma', [0.2, 0.0] if known else [None])


def atom(A, known):
    m = A.shape[0]
    cols = [np.kron(A[:, j].conj(), A[:, j]) for j in range(A.shape[1])]
    if not known:
        cols.append(np.eye(m).ravel(order='F').astype(complex))
    Phi = np.array(cols).T
    return np.vstack([Phi.real, Phi.imag])


def complete_noise(form, Phi, r, l, p):
    """The best noise variance for given powers."""
    m = np.sum(Phi[:, -1])
    res = r - Phi[:, :-1] @ p
    t = Phi[:, -1] @ res
    if form == 'penalizedl1':
        return max(0.0, (t - l) / m)
    if form == 'constrainedl1':
        return min(max(0.0, t / m), max(0.0, l - np.sum(np.abs(p))))
    # the smallest n >= 0 with |res - n v| <= l (or the best possible)
    a, bq, cq = m, -2 * t, res @ res - l * l
    if cq <= 0:
        return 0.0
    disc = bq * bq - 4 * a * cq
    if disc < 0:
        return max(0.0, t / m)
    return max(0.0, (-bq - math.sqrt(disc)) / (2 * a))


def zero_is_optimal(form, Phi, b, l):
    if form == 'constrainedl2':
        return np.linalg.norm(b) <= l * 1.001
    return form == 'penalizedl1' and np.max(Phi.T @ b) <= l * 1.001


def run_cov(sc, rec):
    s, g, form, known, rk, lk, k, sigma = sc[:8]
    f = sc[8] if len(sc) > 8 else 1.0
    from doatools.estimation.sparse import SparseCovarianceMatching
    wl = s.unit
    R = SP.cov(s, rk, wl, g)
    Rf = R * f if f != 1.0 else R
    if len(sc) > 9:
        Rf = alpha.relayout(Rf, sc[9])
    R0 = Rf.copy()
    Phi = atom(SP.atoms(s, g, wl, 'known'), known)
    target = R - (sigma * np.eye(s.size) if known else 0)
    t = target.ravel(order='F')
    b = np.concatenate([t.real, t.imag])
    if form == 'constrainedl2':
        lo = nnls(Phi, b)[1]
        if lo < 1e-6 and lk == 'infeasible':
            raise Skip()
        l = {'mid': lo + 0.3 * (np.linalg.norm(b) - lo), 'small': lo * 1.05 + 0.02, 'large': 3 * np.linalg.norm(b), 'infeasible': 0.5 * lo}[lk]
    elif form == 'constrainedl1':
        l = {'mid': 1.0, 'small': 0.1, 'large': 30.0}[lk]
    else:
        l = {'mid': 1.0, 'small': 0.05, 'large': 1000.0}[lk]
    kw = {'noise_known': known, 'formulation': form}
    if known is False and form == 'penalizedl1':
        kw = {}                                     # the defaults
    e = SparseCovarianceMatching(s.make(), wl, g.make(), **kw)
    ret = e.estimate(Rf, k, l * f, return_spectrum=True, **({'sigma': sigma * f} if known else {}))
    rec.step()
    for o in OTHERS:
        if lk != 'infeasible' and not ret[0] and not np.any(ret[2]) and not zero_is_optimal(form, Phi, b, l):
            rec.count('a solver did not converge')
            ret = e.estimate(Rf, k, l * f, return_spectrum=True, solver_options=o, **({'sigma': sigma * f} if known else {}))
    require(np.array_equal(Rf, R0), 'covariance modified')
    if lk == 'infeasible':
        rec.count('infeasible')
        require(not ret[0] and ret[1] is None, 'infeasible problem reported as resolved')
        return
    require(len(ret) == 3 and ret[2] is not None, 'no spectrum')
    p = np.asarray(ret[2], float).ravel() / f
    x = p if known else np.append(p, complete_noise(form, Phi, b, l, p))
    if form == 'constrainedl2' and lk == 'large':
        require(np.max(np.abs(p)) < 1e-3, 'sparsest solution is zero but the spectrum is {}', p)
    else:
        certify_l1(form, True, Phi, b, l, x, 'covariance matching')
    check_estimates(g, ret, k, rec)
    rec.state(s.name, g.name, form, known, rk, lk, k, sigma, f, sc[9:])


def gen_cov_unit(c):
    """Arrays in other units of length."""
    f = c.choose('unit of length', SP.UNITS)
    s = c.choose('array', SP.setups_at(f)[::2])
    g = c.choose('grid', [x for x in SP.grids_at(f)[:3] + SP.grids_at(f)[5:] if x.kind in s.kinds])
    known = c.choose('noise known', [False, True])
    return s, g, 'penalizedl1', known, 'two', 'mid', 2, 0.2 if known else None


def gen_group_unit(c):
    f = c.choose('unit of length', SP.UNITS)
    s = c.choose('array', SP.setups_at(f)[::2])
    g = c.choose('grid', [x for x in SP.grids_at(f)[:3] + SP.grids_at(f)[5:] if x.kind in s.kinds])
    return s, g, 2, c.choose('l', [0.5, 0.05]), 2, 'sources'


def gen_group(c):
    s = c.choose('array', SP.setups(c.thorough))
    g = c.choose('grid', [x for x in est_grids(c.thorough) if x.kind in s.kinds])
    n = c.choose('snapshots', [1, 2, 4] + ([9] if c.thorough else []))
    l = c.choose('l', [0.5, 0.05, 3.0])
    return s, g, n, l, c.choose('k', [2, 1, 3]), c.choose('Y', ['sources', 'generic', 'real'])


def run_group(sc, rec):
    s, g, n, l, k, yk = sc[:6]
    f = sc[6] if len(sc) > 6 else 1.0
    from doatools.estimation.sparse import GroupSparseEstimator
    wl = s.unit
    A = SP.atoms(s, g, wl, 'known')
    if yk == 'sources':
        full = SP.atoms(s, g, wl, 'all')
        idx = [full.shape[1] // 4, (2 * full.shape[1]) // 3]
        Y = full[:, idx] @ ref.generic(2, n, 3) + 0.05 * ref.generic(s.size, n, 5)
    elif yk == 'int':
        Y = np.round(4 * ref.generic(s.size, n, 8, False)).astype(int)
    else:
        Y = ref.generic(s.size, n, 8, yk == 'generic')
    Yf = Y * f if f != 1.0 else Y
    if len(sc) > 7:
        Yf = alpha.relayout(Yf, sc[7])
    Y0 = Yf.copy()
    e = GroupSparseEstimator(s.make(), wl, g.make(), n)
    ret = e.estimate(Yf, k, l * f, return_spectrum=True)
    rec.step()
    for o in OTHERS:
        if not ret[0] and not np.any(ret[2]) and np.max(np.linalg.norm(A.conj().T @ Y, axis=1)) > l:
            rec.count('a solver did not converge')
            ret = e.estimate(Yf, k, l * f, return_spectrum=True, solver_options=o)
    require(np.array_equal(Yf, Y0), 'measurements modified')
    w = np.asarray(ret[2], float).ravel() / f
    require(np.all(w >= 0), 'negative row norms')
    # the optimal X with these row norms solves a weighted ridge problem
    X = (w[:, None] * A.conj().T) @ np.linalg.solve((A * w) @ A.conj().T + l * np.eye(s.size), Y)
    certify_l21(A, Y, l, X, 'group sparse')
    require(np.max(np.abs(np.linalg.norm(X, axis=1) - w)) <= 2e-2 * (1 + np.max(w)), 'spectrum is not the row norms of a solution: {} vs {}',
            w, np.linalg.norm(X, axis=1))
    check_estimates(g, ret, k, rec)
    rec.state(s.name, g.name, n, l, k, yk, f, sc[7:])


# finer grids, larger arrays, more sources and snapshots
@functools.lru_cache(None)
def big(thorough):
    ss = [SP.Setup('L-ula8', alpha.ula(8, 0.5)), SP.Setup('L-nested33', alpha.nested(3, 3, 0.5), [(SP.G, 1, True, 1), (SP.C, 0, False, 1)])]
    f = math.pi / 2
    gs = [SP.Grid('L37-deg', 'ff1d', 'deg', [SP.lin(-90.0, 90.0, 37)]), SP.Grid('L61-rad', 'ff1d', 'rad', [SP.lin(-f, f, 61)])]
    if thorough:
        ss += [SP.Setup('L-uca9', alpha.uca(9, 0.8), [(SP.L, 2, True, .3)])]
        gs += [SP.Grid('L91-sin', 'ff1d', 'sin', [SP.lin(-1.0, 1.0, 91)])]
    return ss, gs


def gen_cov_large(c):
    ss, gs = big(c.thorough)
    s = c.choose('array', ss)
    g = c.choose('grid', gs)
    form = c.choose('formulation', FORMS)
    known = c.choose('noise known', [False, True])
    return s, g, form, known, c.choose('R', ['three', 'pd']), c.choose('l', ['mid', 'small']), c.choose('k', [3, 1]), 0.2 if known else None


def gen_group_large(c):
    ss, gs = big(c.thorough)
    return (c.choose('array', ss), c.choose('grid', gs), c.choose('snapshots', [5, 20, 1] + ([50] if c.thorough else [])), c.choose('l', [0.5, 0.05, 3.0]),
            c.choose('k', [3, 1, 5]), c.choose('Y', ['sources', 'generic']))


# measurements in other units
SCALES = [1e-12, 1e-8, 1e-5, 1e4, 1e8]


def gen_l1_scale(c):
    m, k = c.choose('size', [(2, 4), (4, 2), (4, 6)])
    return (m, k, c.choose('formulation', FORMS), c.choose('nonneg', [False, True]), c.choose('dictionary', ['generic', 'dup', 'orth']),
            c.choose('observation', ['generic', 'range', 'neg']), c.choose('l', [0.3, 0.02, 1.0]), c.choose('scale', SCALES))


def gen_l21_scale(c):
    m, k, n = c.choose('size', [(2, 3, 1), (3, 5, 3)])
    cp = c.choose('complex', [False, True])
    return m, k, n, cp, c.choose('dictionary', ['generic', 'dup']), c.choose('observation', ['generic', 'range']), c.choose('l', [0.3, 0.02, 1.0]), c.choose('scale', SCALES)


def gen_cov_scale(c):
    s = c.choose('array', SP.setups()[:4])
    g = c.choose('grid', [x for x in est_grids(False) if x.kind in s.kinds][:2])
    form = c.choose('formulation', FORMS)
    known = c.choose('noise known', [False, True])
    r = c.choose('R', ['two', 'pd'])
    l = c.choose('l', ['mid', 'small', 'infeasible'] if form == 'constrainedl2' else ['mid', 'small'])
    return s, g, form, known, r, l, 1 + len(r) % 2, 0.2 if known else None, c.choose('scale', SCALES)


def gen_group_scale(c):
    s = c.choose('array', SP.setups()[:4])
    g = c.choose('grid', [x for x in est_grids(False) if x.kind in s.kinds][:2])
    return s, g, c.choose('snapshots', [1, 3]), c.choose('l', [0.5, 0.05]), c.choose('k', [2, 1]), c.choose('Y', ['sources', 'generic']), c.choose('scale', SCALES)


# other types, memory layouts and structured covariances
def gen_cov_typed(c):
    s = c.choose('array', [SP.setups()[i] for i in (0, 3)])
    g = c.choose('grid', [x for x in est_grids(False) if x.kind in s.kinds][:2])
    form = c.choose('formulation', FORMS)
    known = c.choose('noise known', [False, True])
    r, lay = c.choose('R', [(r, None) for r in ('int', 'diag', 'near-real', 'near-white', 'noise-free2')] + [(r, x) for r in ('two-corr', 'int') for x in alpha.COV_LAYOUTS])
    return s, g, form, known, r, 'mid', 1 + len(r) % 2, 0.2 if known else None, 1.0, lay


def gen_group_typed(c):
    s = c.choose('array', [SP.setups()[i] for i in (0, 3)])
    g = c.choose('grid', [x for x in est_grids(False) if x.kind in s.kinds][:2])
    y, lay = c.choose('Y', [('int', None), ('real', None)] + [(y, x) for y in ('generic', 'int') for x in alpha.LAYOUTS])
    return s, g, c.choose('snapshots', [1, 3]), 0.5, c.choose('k', [2, 1]), y, 1.0, lay


def gen_opts(c):
    return c.choose('what', ['l1', 'l21', 'cov', 'group']), c.choose('option', ['bad', 'CLARABEL', 'SCS'])


def run_opts(sc, rec):
    """Solver options reach the solver."""
    what, opt = sc
    import cvxpy
    s, g = SP.setups()[0], SP.grids()[0]
    kw = {'solver': 'NO-SUCH-SOLVER' if opt == 'bad' else opt}
    if opt == 'SCS':
        kw.update(eps=1e-8, max_iters=20000)
    A = dictionary(3, 4, 'generic')
    b = observation(3, 'generic', A)
    R = SP.cov(s, 'two', 1.0, g)
    Y = ref.generic(s.size, 2, 3)

    def go():
        from doatools.estimation import sparse
        if what == 'l1':
            return problem('L1RegularizedLeastSquaresProblem', 3, 4).solve(A, b, 0.3, **kw)
        if what == 'l21':
            return problem('L21RegularizedLeastSquaresProblem', 3, 4, 1).solve(A, b, 0.3, **kw)
        if what == 'cov':
            return sparse.SparseCovarianceMatching(s.make(), 1.0, g.make()).estimate(R, 1, 1.0, solver_options=kw)
        return sparse.GroupSparseEstimator(s.make(), 1.0, g.make(), 2).estimate(Y, 1, 0.5, solver_options=kw)
    rec.step()
    if opt == 'bad':
        try:
            go()
        except (cvxpy.error.SolverError, ValueError):
            return
        require(False, 'unknown solver accepted: options are not passed to the solver')
    x = go()
    if what == 'l1':
        certify_l1('penalizedl1', False, A, b, 0.3, np.asarray(x))
    elif what == 'l21':
        certify_l21(A, b, 0.3, x)
    rec.state(*sc)


HARNESSES = [Tree('l1', gen_l1, run_l1), Tree('l21', gen_l21, run_l21)] + \
    [reuse(f, n) for f in FORMS for n in (False, True)] + [reuse_l21(False), reuse_l21(True)] + \
    [Tree('l1-large', gen_l1_large, run_l1), Tree('l21-large', gen_l21_large, run_l21), Tree('covariance-large', gen_cov_large, run_cov), Tree('group-large', gen_group_large, run_group)] + \
    [Tree('l1-scale', gen_l1_scale, run_l1), Tree('l21-scale', gen_l21_scale, run_l21), Tree('covariance-scale', gen_cov_scale, run_cov), Tree('group-scale', gen_group_scale, run_group)] + \
    [Tree('l1-typed', gen_l1_typed, run_l1), Tree('l21-typed', gen_l21_typed, run_l21), Tree('covariance-typed', gen_cov_typed, run_cov), Tree('group-typed', gen_group_typed, run_group)] + \
    [Tree('covariance', gen_cov, run_cov), Tree('group', gen_group, run_group), Tree('options', gen_opts, run_opts),
     Tree('covariance-units', gen_cov_unit, run_cov), Tree('group-units', gen_group_unit, run_group)]
