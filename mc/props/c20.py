"""C20 utilities: exhaustive small inputs against their definitions."""
import cmath
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['unique rows: entries finite or missing (NaN), not all of them missing; distances not within rounding of the tolerance']
PI = math.pi


def M():
    from doatools.utils import math as um
    return um


def V():
    from doatools.utils import conversion
    return conversion


def unchanged(args, copies):
    for a, c in zip(args, copies):
        require(np.array_equal(a, c, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, c), 'input modified')


DT = [np.int64, np.float64, np.complex128, np.float32, np.int32, np.complex64]


def matrix(m, n, dt, seed=0, layout='C'):
    X = 3 * ref.generic(m, n, seed)
    if np.dtype(dt).kind in 'iu':
        X = np.round(X.real)
    elif np.dtype(dt).kind == 'f':
        X = X.real
    X = X.astype(dt)
    if layout == 'F':
        X = np.asfortranarray(X)
    elif layout == 'T':
        X = np.ascontiguousarray(X.T).T
    elif layout == 'strided':
        Y = np.zeros((2 * m, 2 * n), dtype=dt)
        Y[::2, 1::2] = X
        X = Y[::2, 1::2]
    elif layout == 'reversed':
        X = X[::-1, ::-1][::-1, ::-1][:, ::-1]
    elif layout == 'readonly':
        X.setflags(write=False)
    return X


LAY = ['C', 'F', 'T', 'strided', 'reversed', 'readonly']
SHAPES = [(m, n) for m in range(1, 5) for n in range(1, 5)]


# ------------------------------------------------------- vec, abs_squared
def gen_elem(c):
    return c.choose('shape', SHAPES + [(0, 0), (0, 2), (3, 0)]), c.choose('dtype', DT), c.choose('layout', LAY), c.choose('seed', [0, 1, 2])


def run_elem(sc, rec):
    (m, n), dt, lay, seed = sc
    X = matrix(m, n, dt, seed, lay)
    X0 = X.copy()
    v = M().vec(X)
    want = [X0[i, j] for j in range(n) for i in range(m)]
    require(v.shape == (m * n, 1) and v.dtype == X.dtype and v.ravel().tolist() == want, 'vec of {}: {}', X0.tolist(), v.tolist())
    a = M().abs_squared(X)
    require(a.shape == X.shape and not np.iscomplexobj(a), 'abs_squared of shape {} dtype {}', a.shape, a.dtype)
    w = np.array([complex(x).real ** 2 + complex(x).imag ** 2 for x in X0.ravel()]).reshape(X.shape)
    require(ref.close(a, w, 1e-5 if X.dtype.itemsize in (4,) or dt is np.complex64 else 1e-12), 'abs_squared of {}: {}', X0.tolist(), a.tolist())
    flat = M().abs_squared(X.ravel())
    require(ref.close(flat, w.ravel(), 1e-5 if dt in (np.complex64, np.float32) else 1e-12), 'abs_squared of a vector')
    unchanged([X], [X0])
    rec.step(3)
    rec.state(*sc)


# --------------------------------------------------------------- khatri_rao
def gen_kr(c):
    m, n = c.choose('rows', [(2, 3), (1, 1), (1, 3), (3, 2), (4, 1), (2, 2)])
    k = c.choose('cols', [2, 1, 3, 4, 0])
    return m, n, k, c.choose('dtype a', DT[:3]), c.choose('dtype b', DT[:3]), c.choose('layout', LAY), c.choose('basis', [None] + list(range(3)))


def run_kr(sc, rec):
    m, n, k, da, db, lay, basis = sc
    A, B = matrix(m, k, da, 1, lay), matrix(n, k, db, 2, lay)
    if basis is not None and k:
        A = np.zeros((m, k), dtype=da)
        B = np.zeros((n, k), dtype=db)
        A[basis % m, basis % k] = 1
        B[(2 * basis) % n, :] = 2
    A0, B0 = A.copy(), B.copy()
    C = M().khatri_rao(A, B)
    require(C.shape == (m * n, k), 'shape {}', C.shape)
    for q in range(k):
        for i in range(m):
            for j in range(n):
                w = complex(A0[i, q]) * complex(B0[j, q])
                require(abs(complex(C[i * n + j, q]) - w) <= 1e-12 * (1 + abs(w)), 'entry {} {}', (i, j, q), C.tolist())
    require(np.iscomplexobj(C) == (np.iscomplexobj(A) or np.iscomplexobj(B)), 'dtype {}', C.dtype)
    unchanged([A, B], [A0, B0])
    try:
        M().khatri_rao(A, np.zeros((n, k + 1)))
    except ValueError:
        pass
    else:
        require(False, 'matrices with {} and {} columns accepted', k, k + 1)
    rec.step(2)
    rec.state(*sc)


# -------------------------------------------------------------------- projm
def proj_check(A, rec, pinv):
    A0 = A.copy()
    P = M().projm(A, True) if pinv else M().projm(A)
    rec.step()
    m = A.shape[0]
    require(P.shape == (m, m), 'shape {}', P.shape)
    tol = 1e-3 if A.dtype in (np.float32, np.complex64) else 1e-8
    A_ = A0.astype(complex)
    require(ref.close(P, P.conj().T, tol), 'projection is not Hermitian: {}', P)
    require(ref.close(P @ P, P, tol), 'projection is not idempotent: {}', P)
    require(ref.close(P @ A_, A_, tol * 10), 'projection does not fix the columns of {}', A0)
    r = np.linalg.matrix_rank(A_)
    require(abs(np.trace(P) - r) < max(10 * tol, 1e-6), 'trace {} but rank {}', np.trace(P), r)
    # the orthogonal complement is annihilated
    U, s, _ = np.linalg.svd(A_)
    require(np.max(np.abs(P @ U[:, r:]), initial=0) < tol * 10, 'orthogonal complement is not annihilated')
    unchanged([A], [A0])


def gen_proj(c):
    m, n = c.choose('shape', [(m, n) for m in range(1, 6) for n in range(1, m + 1)])
    return m, n, c.choose('dtype', DT), c.choose('layout', LAY), c.choose('pinv', [False, True]), c.choose('scale', [1, 100])


def run_proj(sc, rec):
    m, n, dt, lay, pinv, s = sc
    A = matrix(m, n, dt, 1, lay) * np.dtype(dt).type(s)
    if np.linalg.cond(A.astype(complex)) > (30 if dt in (np.float32, np.complex64) else 1e3):
        raise Skip()
    proj_check(A, rec, pinv)
    rec.state(*sc)


def gen_proj_small(c):
    m, n = c.choose('shape', [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2)] + ([(4, 2)] if c.thorough else []))
    vals = [0, 1, -2]
    return m, n, [c.choose('a', vals) for _ in range(m * n)], c.choose('kind', ['int', 'float', 'complex'])


def run_proj_small(sc, rec):
    m, n, a, kind = sc
    A = np.array(a).reshape(m, n)
    if kind == 'float':
        A = A.astype(float)
    elif kind == 'complex':
        A = A * (1 + 2j) ** np.arange(n)
        A[0] *= 1j
    if np.linalg.matrix_rank(A) == n:
        proj_check(A, rec, False)
    proj_check(A, rec, True)
    rec.state(*sc)


def gen_proj_ill(c):
    m, n = c.choose('shape', [(2, 2), (3, 2), (4, 2), (3, 3), (5, 3)])
    return m, n, c.choose('eps', [1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6]), c.choose('complex', [False, True]), c.choose('scale', [1.0, 1e-6, 1e6])


def run_proj_ill(sc, rec):
    """Nearly dependent columns still span their space; only numerically
    dependent ones (1e-12) may be dropped."""
    m, n, eps, cplx, scale = sc
    Q = np.linalg.qr(ref.generic(m, m, 3))[0] if cplx else np.linalg.qr(ref.generic(m, m, 3, False))[0]
    A = np.repeat(Q[:, :1], n, axis=1)
    for i in range(1, n):
        A[:, i] += eps ** (1.0 if n == 2 else 0.5) * Q[:, i]
    A *= scale
    A0 = A.copy()
    want = Q[:, :n] @ Q[:, :n].conj().T
    c2 = np.linalg.cond(A) ** 2
    for pinv in (False, True):
        tol = 1e-6 if pinv else 1e-14 * c2
        if tol > 0.1:
            continue
        P = M().projm(A, pinv)
        require(ref.close(P, want, max(tol, 1e-9)), 'projection onto nearly dependent columns (pinv={}): {} expected {}', pinv, P, want)
        rec.step()
    unchanged([A], [A0])
    rec.state(*sc)


# ---------------------------------------------------------------- cartesian
def gen_cart(c):
    d = c.choose('d', [1, 2, 3] + ([4] if c.thorough else []))
    vs = []
    for i in range(d):
        n = c.choose('n', [2, 1, 3, 0] if i < 2 else [2, 1, 3])
        vs.append((n, c.choose('dtype', [np.int64, np.float64])))
    return vs


def run_cart(vs, rec):
    xi = [(np.array([3, 1, 2][:n]) * (i + 1)).astype(dt) + (0.5 if dt is np.float64 else 0) for i, (n, dt) in enumerate(vs)]
    keep = [x.copy() for x in xi]
    out = M().cartesian(*xi)
    want = list(itertools.product(*[x.tolist() for x in xi]))
    require(out.shape == (len(want), len(xi)), 'shape {} expected {}', out.shape, (len(want), len(xi)))
    require([tuple(r) for r in out.tolist()] == [tuple(w) for w in want], 'product of {}: {}', [x.tolist() for x in xi], out.tolist())
    unchanged(xi, keep)
    if out.size:
        out[...] = -1
        unchanged(xi, keep)
    rec.step()
    rec.state(vs)


# -------------------------------------------------------------- unique_rows
def greedy(X, tol):
    kept = []
    for i in range(len(X)):
        if not any(all(abs(X[i][j] - X[k][j]) <= tol for j in range(len(X[i]))) for k in kept):
            kept.append(i)
    return kept


UNIQ = {
    'int': ([0, 1, -2], {}),
    'float': ([0.0, 1.5, 1.5 + 1e-12, -2.0], {}),
    'near': ([1.0, 1.05, 1.12, -3.0], {'atol': 0.1, 'rtol': 0.0}),
    'rel': ([100.0, 100.5, 104.0, 1.0], {'rtol': 0.01}),
    'neg-rel': ([-100.0, -100.5, -104.0, 1.0], {'rtol': 0.01}),
    'both': ([10.0, 10.15, 10.4], {'atol': 0.1, 'rtol': 0.01}),
    'exact': ([1.0, 1.0 + 1e-9, 2.0], {'rtol': 0.0}),
    'complex': ([1 + 1j, 1 - 1j, 2.0], {}),
    'range': ([-100.0, 100.0, 101.5, 102.3], {'rtol': 0.01}),
    'mixed-scale': ([1000.0, 1000.5, 1.0, 1.6], {'rtol': 1e-3}),
    'both-signs': ([-10.0, -10.15, 10.0, 10.3], {'atol': 0.1, 'rtol': 0.01}),
    'tiny': ([1e-12, 1.05e-12, -2e-12, 0.0], {'rtol': 0.1}),
    'all-negative': ([-5.0, -5.2, -90.0], {'rtol': 0.005}),
    'missing': ([math.nan, 40.0, 40.3, -1.0], {'rtol': 0.01}),
    'missing-abs': ([math.nan, 1.0, 1.05], {'atol': 0.1}),
    'big-int': ([10 ** 6, 10 ** 6 + 1, -10 ** 6], {}),
}


def gen_uniq(c):
    kind = c.choose('kind', list(UNIQ))
    n, m = c.choose('shape', [(2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (1, 3), (2, 3), (0, 2), (0, 1), (1, 1)] + ([(5, 1), (3, 3)] if c.thorough else []))
    vals = UNIQ[kind][0]
    return kind, n, m, [c.choose('x', vals) for _ in range(n * m)]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.size == b.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')


def run_uniq(sc, rec):
    kind, n, m, x = sc
    kw = UNIQ[kind][1]
    X = np.array(x, dtype=complex if kind == 'complex' else None).reshape(n, m)
    if n == 0:
        X = X.astype(float)
    X0 = X.copy()
    top = max([abs(v) for v in x if v == v], default=0)
    if n and all(v != v for v in x):
        raise Skip()
    if kind == 'complex':
        tol = 1e-8
    else:
        tol = kw.get('atol', 0.0) + kw.get('rtol', 1e-8) * top
    for i in range(n):
        for k in range(i):
            for j in range(m):
                d = abs(x[i * m + j] - x[k * m + j])
                if d and abs(d - tol) <= 1e-7 * tol:
                    raise Skip()
    rows = X0.tolist()
    kept = greedy(rows, tol)
    # missing values are sorted last
    ks = sorted(kept, key=lambda i: [(v.real, v.imag) if isinstance(v, complex) else (v != v, 0 if v != v else v) for v in rows[i]])
    for sort in (False, True):
        want = ks if sort else kept
        y = M().unique_rows(X, sort=sort, **kw) if sort else M().unique_rows(X, **kw)
        r = M().unique_rows(X, return_index=True, sort=sort, **kw)
        rec.step(2)
        require(isinstance(r, tuple) and len(r) == 2, 'return_index gives {}', r)
        y2, idx = r
        require(y.shape == (len(want), m) and same(y, [rows[i] for i in want]), 'unique rows of {} (sort={}, {}): {} expected {}', rows, sort, kw,
                y.tolist(), [rows[i] for i in want])
        require(y2.shape == y.shape and same(y, y2), 'rows differ when the indices are requested')
        idx = np.asarray(idx)
        require(idx.shape == (len(want),) and (len(want) == 0 or idx.dtype.kind in 'iu') and idx.tolist() == want, 'indices {} expected {}', idx.tolist(), want)
        y[...] = 7
        unchanged([X], [X0])
    rec.state(*sc)


# -------------------------------------------------------------- conversions
ANG = [0.0, 0.3, -0.3, 1.0, -1.2, 1.5, PI / 2, -PI / 2, PI / 4, 1e-9]


def gen_conv(c):
    return c.choose('from', ['rad', 'deg', 'sin']), c.choose('to', ['rad', 'deg', 'sin']), c.choose('shape', ['1d', '2d', '0d', 'empty', 'readonly', 'one'])


def run_conv(sc, rec):
    f, t, shape = sc
    x = np.array([ref.from_rad(v, f) for v in ANG])
    x = {'1d': x, '2d': x.reshape(5, 2), '0d': np.array(x[3]), 'empty': np.zeros(0), 'readonly': x, 'one': x[1:2]}[shape]
    if shape == 'readonly':
        x.setflags(write=False)
    x0 = x.copy()
    y = V().convert_angles(x, f, t)
    w = np.array([ref.from_rad(ref.to_rad(v, f), t) for v in x0.ravel()]).reshape(x0.shape)
    require(np.shape(y) == x0.shape and ref.close(y, w, 1e-9), '{} {} -> {}: {} expected {}', x0, f, t, y, w)
    require(not np.shares_memory(x, y), 'result shares memory with the input')
    z = V().convert_angles(np.asarray(y), t, f)
    require(ref.close(z, x0, 1e-6), 'round trip {} -> {}', x0, z)
    if f != 'sin' and t != 'sin':
        wide = np.array([2.0, -3.0, 3.1]) * (1 if f == 'rad' else 180 / PI)
        require(ref.close(V().convert_angles(wide, f, t), wide * {'radrad': 1, 'degdeg': 1, 'raddeg': 180 / PI, 'degrad': PI / 180}[f + t], 1e-12), 'wide angles')
    unchanged([x], [x0])
    rec.step(3)
    rec.state(*sc)


def gen_ae(c):
    n = c.choose('n', [1, 2, 3])
    return [[c.choose('az', [0.0, 0.7, -2.2, PI / 2, PI, -PI / 2, 3.0]), c.choose('el', [0.0, 0.5, -1.1, PI / 2])] for _ in range(n if n < 3 else 1)] * (1 if n < 3 else 3)


def run_ae(p, rec):
    x = np.array(p)
    x0 = x.copy()
    y = V().ae2broad(x)
    require(y.shape == (len(p), 1), 'shape {}', y.shape)
    for i, (az, el) in enumerate(p):
        # angle between the direction and the yz-plane
        u = (math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el))
        w = PI / 2 - math.acos(max(-1.0, min(1.0, u[0])))
        require(abs(y[i, 0] - w) < 1e-7, 'broadside angle of {}: {} expected {}', p[i], y[i, 0], w)
    unchanged([x], [x0])
    rec.step()
    rec.state(p)


def gen_sph(c):
    d = c.choose('d', [1, 2, 3])
    vals = [1.0, 0.0, -2.0, 0.5, -1e-3, 1e5] if d < 3 or c.thorough else [1.0, 0.0, -2.0, 0.5, 1e5]
    pts = [[c.choose('x', vals) for _ in range(d)]]
    return pts + c.choose('rest', [[], [[0.3] * d, [-0.4] * d]]), c.choose('dtype', [float, int])


def run_sph(sc, rec):
    pts, dt = sc
    x = np.array(pts).astype(dt)
    x0 = x.copy()
    s = V().cart2spherical(x)
    require(s.shape == (len(pts), 3), 'shape {}', s.shape)
    for i, p in enumerate(x0.tolist()):
        r, az, el = s[i]
        px, py, pz = ref.pad3(p)
        n = math.sqrt(px * px + py * py + pz * pz)
        require(abs(r - n) <= 1e-9 * (1 + n), 'range of {}: {}', p, r)
        back = (r * math.cos(el) * math.cos(az), r * math.cos(el) * math.sin(az), r * math.sin(el))
        require(max(abs(a - b) for a, b in zip(back, (px, py, pz))) <= 1e-9 * (1 + n), 'spherical coordinates of {}: {}', p, s[i].tolist())
        require(-PI <= az <= PI and -PI / 2 <= el <= PI / 2, 'angles of {}: {}', p, s[i].tolist())
        if n == 0:
            require(az == 0 and el == 0, 'angles of the origin: {}', s[i].tolist())
    unchanged([x], [x0])
    rec.step()
    rec.state(*sc)


# ------------------------------------------------------------ larger inputs
BIG = [(5, 9), (17, 3), (3, 17), (33, 32), (64, 1), (1, 100), (100, 7), (130, 129)]


def gen_big_elem(c):
    return c.choose('shape', BIG), c.choose('dtype', DT), c.choose('layout', LAY), 1


def gen_big_kr(c):
    m, n = c.choose('rows', [(9, 9), (16, 16), (5, 33), (64, 3), (17, 1)])
    return m, n, c.choose('cols', [9, 1, 16, 33, 65]), c.choose('dtype a', DT[:3]), c.choose('dtype b', DT[:3]), c.choose('layout', LAY)


def run_big_kr(sc, rec):
    m, n, k, da, db, lay = sc
    A, B = matrix(m, k, da, 1, lay), matrix(n, k, db, 2, lay)
    A0, B0 = A.copy(), B.copy()
    C = M().khatri_rao(A, B)
    rec.step()
    W = (A0[:, None, :].astype(complex) * B0[None, :, :]).reshape(m * n, k)
    require(C.shape == W.shape and ref.close(C, W, 1e-12), 'Khatri-Rao product of {}x{} and {}x{} matrices', m, k, n, k)
    unchanged([A, B], [A0, B0])
    rec.state(*sc)


def gen_big_proj(c):
    m, n = c.choose('shape', [(9, 8), (16, 3), (33, 17), (64, 9), (17, 17), (100, 33), (12, 1)])
    return m, n, c.choose('dtype', DT), c.choose('layout', LAY), c.choose('pinv', [False, True]), 1


def gen_big_cart(c):
    sizes = c.choose('sizes', [(64, 65), (180, 3), (3, 200), (12, 9, 17), (5, 4, 3, 6), (2, 3, 2, 3, 2), (1000,), (1, 40, 1)])
    order = c.choose('order', ['ascending', 'descending', 'shuffled', 'repeated'])
    return sizes, order, c.choose('dtype', ['float', 'int', 'mixed'])


def run_big_cart(sc, rec):
    sizes, order, dt = sc
    xi = []
    for i, n in enumerate(sizes):
        v = [7 * i + {'ascending': j, 'descending': -j, 'shuffled': (j * 7919 + 3) % (2 * n), 'repeated': j // 2}[order] for j in range(n)]
        xi.append(np.array(v, dtype=int) if dt == 'int' or (dt == 'mixed' and i % 2) else np.array(v) + 0.25)
    keep = [x.copy() for x in xi]
    out = M().cartesian(*xi)
    rec.step()
    want = list(itertools.product(*[x.tolist() for x in xi]))
    require(out.shape == (len(want), len(xi)), 'shape {} expected {}', out.shape, (len(want), len(xi)))
    require(out.tolist() == [list(w) for w in want], 'product of axes of sizes {}', sizes)
    unchanged(xi, keep)
    rec.state(*sc)


def gen_big_uniq(c):
    n = c.choose('n', [20, 65, 129, 300])
    m = c.choose('m', [1, 2, 3])
    distinct = c.choose('distinct', [1, 2, 7, 40, 200])
    return n, m, distinct, c.choose('order', ['shuffled', 'blocks', 'last']), c.choose('kind', ['int', 'float', 'complex', 'noisy', 'coarray'])


def run_big_uniq(sc, rec):
    n, m, distinct, order, kind = sc
    pick = [{'shuffled': (i * 7919 + 5) % 104729 % distinct, 'blocks': i * distinct // n, 'last': min(distinct - 1, max(0, i - n + distinct))}[order] for i in range(n)]
    base = [[((q * 31 + 17 * j * q + j) % 211) - 100 for j in range(m)] for q in range(distinct)]
    X = np.array([base[q] for q in pick], dtype=float)
    kw = {}
    if kind == 'int':
        X = X.astype(int)
    elif kind == 'complex':
        X = X * (1 + 0j)
        X[:, 0] += 1j * np.array([q % 3 for q in pick])
    elif kind == 'noisy':
        X = X / 7 + 1e-9 * ref.generic(n, m, 2, False)
        kw = {'atol': 1e-6}
    elif kind == 'coarray':
        L = 0.31 * X[:int(math.isqrt(n))]
        X = np.array([a - b for a in L for b in L])
    X0 = X.copy()
    rows = X0.tolist()
    tol = kw.get('atol', 0.0) + 1e-8 * (np.max(np.abs(X)) if kind != 'complex' else 0)
    kept = greedy(rows, tol)
    # missing values are sorted last
    ks = sorted(kept, key=lambda i: [(v.real, v.imag) if isinstance(v, complex) else (v != v, 0 if v != v else v) for v in rows[i]])
    for sort in (False, True):
        want = ks if sort else kept
        if sort and kind in ('noisy', 'coarray') and m > 1:
            want = sorted(want)            # order of rows whose leading entries agree up to rounding is open
        y, idx = M().unique_rows(X, return_index=True, sort=sort, **kw)
        rec.step()
        got = list(idx)
        require(sorted(got) == sorted(want) and (got == want or want is not ks and want is not kept), 'rows {} kept, expected {}', got, want)
        require(np.array_equal(y, X0[got]), 'rows are not those of the indices')
        require(np.array_equal(M().unique_rows(X, sort=sort, **kw), y), 'rows differ when the indices are requested')
    unchanged([X], [X0])
    rec.state(*sc)


def gen_big_conv(c):
    return c.choose('function', ['angles', 'ae2broad', 'cart2spherical']), c.choose('n', [17, 65, 180, 1001]), c.choose('unit', [('rad', 'deg'), ('deg', 'sin'), ('sin', 'rad'), ('deg', 'rad'), ('rad', 'sin'), ('sin', 'deg')])


def run_big_conv(sc, rec):
    f, n, (u, v) = sc
    t = [-1.0 + 2.0 * ((i * 7919) % n) / (n - 1) for i in range(n)]
    if f == 'angles':
        x = np.array([ref.from_rad(PI / 2 * q, u) for q in t])
        x0 = x.copy()
        y = V().convert_angles(x, u, v)
        require(y.shape == (n,) and ref.close(y, np.array([ref.from_rad(ref.to_rad(q, u), v) for q in x0]), 1e-7), 'conversion of {} angles from {} to {}', n, u, v)
    else:
        if u != 'rad' or v != 'deg':
            raise Skip()
        x = np.array([[3.1 * q, 1.5 * t[(5 * i + 1) % n], q * q - 2] for i, q in enumerate(t)])
        if f == 'ae2broad':
            x = np.ascontiguousarray(x[:, :2])
        x0 = x.copy()
        y = (V().ae2broad if f == 'ae2broad' else V().cart2spherical)(x)
        require(y.shape == (n, 1 if f == 'ae2broad' else 3), 'shape {}', y.shape)
        for p, q in zip(x0.tolist(), y.tolist()):
            if f == 'ae2broad':
                require(abs(q[0] - math.asin(math.cos(p[1]) * math.cos(p[0]))) < 1e-7, 'broadside angle of {}: {}', p, q)
            else:
                r, a, e = q
                back = (r * math.cos(e) * math.cos(a), r * math.cos(e) * math.sin(a), r * math.sin(e))
                require(r > 0 and max(abs(s - w) for s, w in zip(p, back)) < 1e-9 and abs(e) <= PI / 2, 'spherical coordinates of {}: {}', p, q)
    require(np.array_equal(x, x0), 'input modified')
    rec.step()
    rec.state(*sc)


# ------------------------------------- types, memory layouts and scales
FORMS = alpha.LAYOUTS + ['int64', 'int32', 'int16', 'int8', 'float32']


def gen_form(c):
    f = c.choose('function', ['angles', 'ae2broad', 'cart2spherical', 'unique_rows', 'cartesian'])
    how = c.choose('form', FORMS)
    return f, how, c.choose('variant', {'angles': [0, 1, 2, 3, 4, 5], 'ae2broad': [0, 1], 'cart2spherical': [0, 1, 2, 3, 4, 5, 6, 7, 8], 'unique_rows': [0, 1, 2],
                                        'cartesian': [0, 1, 2]}[f])


PAIRS = [('deg', 'rad'), ('deg', 'sin'), ('rad', 'deg'), ('rad', 'sin'), ('sin', 'deg'), ('sin', 'rad')]


def run_form(sc, rec):
    f, how, k = sc
    single = how == 'float32'
    if f == 'angles':
        u, v = PAIRS[k]
        x = alpha.typed({'deg': [-90.0, -37.0, 0.0, 12.0, 1.0, 89.0, 60.0, 45.0], 'rad': [-1.0, 0.0, 1.0, 0.25], 'sin': [-1.0, 0.0, 1.0, 0.5]}[u], how)
        x0 = x.copy()
        y = V().convert_angles(x, u, v)
        w = np.array([ref.from_rad(ref.to_rad(float(q), u), v) for q in x0])
        require(y.shape == w.shape and ref.close(y, w, 1e-5 if single else 1e-12), '{} {} ({}) -> {}: {} expected {}', x0, u, how, v, y.tolist(), w.tolist())
    elif f == 'ae2broad':
        if how.startswith('int') or how == 'float32':
            raise Skip()
        x = alpha.typed([[[0.3, 0.1], [-2.0, 0.8], [1.6, -1.2]], [[3.0, 0.0]]][k], how)
        x0 = x.copy()
        y = V().ae2broad(x)
        w = [[math.asin(math.cos(a) * math.cos(e))] for a, e in x0.tolist()]
        require(y.shape == (len(w), 1) and ref.close(y, np.array(w), 1e-9), 'broadside angles of {} ({}): {}', x0.tolist(), how, y.tolist())
    elif f == 'cart2spherical':
        d = 1 + k % 3
        s = [1.0, 40.0, 1e-150 if how in alpha.LAYOUTS else 100.0][k // 3]
        if how in alpha.LAYOUTS and k >= 6:
            s = 1e4
        x = alpha.typed(s * np.array([[1.0, -0.6, 0.3], [0.0, 1.2, -1.0], [-1.1, 0.0, 0.2], [0.0, 0.0, 0.9], [0.0, 0.0, 0.0]])[:, :d], how)
        x0 = x.copy()
        y = V().cart2spherical(x)
        require(y.shape == (5, 3), 'shape {}', y.shape)
        for p, q in zip(x0.tolist(), y.tolist()):
            r, a, e = q
            back = (r * math.cos(e) * math.cos(a), r * math.cos(e) * math.sin(a), r * math.sin(e))
            require(r >= 0 and max(abs(g - h) for g, h in zip(ref.pad3(p), back)) <= (1e-4 if single else 1e-9) * s and abs(e) <= PI / 2 + 1e-12,
                    'spherical coordinates of {} ({}): {}', p, x0.dtype, q)
    elif f == 'unique_rows':
        x = alpha.typed([[[3, 1], [1, 2], [3, 1], [-4, 5], [1, 2], [1, 1]], [[5], [2], [5], [7], [2], [-1], [7]],
                         [[1, 0, 2], [0, 0, 0], [0, -3, 1], [1, 0, 2], [0, 0, 0]]][k], how)
        x0 = x.copy()
        rows = [tuple(r) for r in x0.tolist()]
        first = sorted({r: rows.index(r) for r in rows}.values())
        for sort in (False, True):
            want = sorted(first, key=lambda i: rows[i]) if sort else first
            y, idx = M().unique_rows(x, return_index=True, sort=sort)
            require(y.shape == (len(want), x.shape[1]) and y.tolist() == [list(rows[i]) for i in want] and np.asarray(idx).tolist() == want,
                    'unique rows of {} ({}, sort={}): {} at {}', rows, how, sort, y.tolist(), idx)
            require(np.array_equal(M().unique_rows(x, sort=sort), y), 'rows differ when the indices are requested')
    else:
        xi = [alpha.typed(v, how) for v in [[[3, 1, 2], [5, 4]], [[7, 8], [9], [2, 1, 1]], [[6, -1, 6, 0]]][k]]
        x0 = [q.copy() for q in xi]
        out = M().cartesian(*xi)
        require(out.tolist() == [list(t) for t in itertools.product(*[q.tolist() for q in x0])], 'product of {} ({})', [q.tolist() for q in x0], how)
        unchanged(xi, x0)
        rec.step()
        return rec.state(*sc)
    unchanged([x], [x0])
    rec.step()
    rec.state(*sc)


def gen_scale(c):
    m, n = c.choose('shape', [(3, 2), (4, 4), (5, 1), (2, 3), (3, 5), (7, 6)])
    return m, n, c.choose('complex', [True, False]), c.choose('scale', [1.0, 1e-8, 1e-40, 1e9, 1e60]), c.choose('columns', ['equal', 'dynamic', 'descending', 'rows dynamic']), c.choose('layout', LAY)


def run_scale(sc, rec):
    """Projections do not depend on the scale of the matrix or of its columns;
    products and squares scale with it."""
    m, n, cplx, s, cols, lay = sc
    X = matrix(m, n, np.complex128 if cplx else np.float64, 3, lay)
    f = {'equal': np.ones(n), 'dynamic': 10.0 ** np.arange(-(n - 1), 1), 'descending': 10.0 ** -np.arange(0.0, n), 'rows dynamic': np.ones(n)}[cols]
    g = 10.0 ** np.arange(0.0, -m, -1) if cols == 'rows dynamic' else np.ones(m)
    A = X * (s * np.outer(g, f))
    if lay == 'F':
        A = np.asfortranarray(A)
    A0 = A.copy()
    v = M().vec(A)
    require(v.shape == (m * n, 1) and v.ravel().tolist() == [A0[i, j] for j in range(n) for i in range(m)], 'vec of {}', A0.tolist())
    w = np.array([[abs(A0[i, j]) ** 2 for j in range(n)] for i in range(m)])
    require(np.all(np.abs(M().abs_squared(A) - w) <= 1e-12 * w), 'abs_squared of {}', A0.tolist())
    K = M().khatri_rao(A, A[:1])
    want = A0 * A0[:1]
    require(K.shape == (m, n) and np.all(np.abs(K - want) <= 1e-12 * np.abs(want)), 'Khatri-Rao product of {}', A0.tolist())
    for pinv in (False, True):
        cond = np.linalg.cond(A0 / s)
        if n > m and not pinv or cond > (1e4 if not pinv else 1e7):
            continue
        if not pinv and (s > 1e100 or s < 1e-100):
            continue
        P = M().projm(A, pinv)
        U = np.linalg.svd(A0 / s)[0][:, :min(m, n)]
        require(P.shape == (m, m) and ref.close(P, U @ U.conj().T, 1e-6), 'projection onto the columns of {} (pinv={}): {}', A0.tolist(), pinv, P.tolist())
        rec.step()
    unchanged([A], [A0])
    rec.state(*sc)


HARNESSES = [Tree('forms', gen_form, run_form), Tree('scales', gen_scale, run_scale), Tree('large vec-abs2', gen_big_elem, run_elem), Tree('large khatri_rao', gen_big_kr, run_big_kr), Tree('large projm', gen_big_proj, run_proj),
             Tree('large cartesian', gen_big_cart, run_big_cart), Tree('large unique_rows', gen_big_uniq, run_big_uniq), Tree('large conversions', gen_big_conv, run_big_conv),
             Tree('vec-abs2', gen_elem, run_elem), Tree('khatri_rao', gen_kr, run_kr), Tree('projm', gen_proj, run_proj),
             Tree('projm-small', gen_proj_small, run_proj_small), Tree('projm-ill', gen_proj_ill, run_proj_ill), Tree('cartesian', gen_cart, run_cart), Tree('unique_rows', gen_uniq, run_uniq),
             Tree('angles', gen_conv, run_conv), Tree('ae2broad', gen_ae, run_ae), Tree('cart2spherical', gen_sph, run_sph)]
