"""C15 spatial smoothing and snapshot reduction."""
import itertools

import numpy as np

from .. import alpha, ref
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['snapshot reduction: at most min(M, N) columns are requested']


def ss_ref(R, l, fb):
    m = len(R)
    n = m - l + 1
    out = [[0j] * n for _ in range(n)]
    for s in range(l):
        for i in range(n):
            for j in range(n):
                out[i][j] += complex(R[s + i][s + j]) / l
    if fb:
        out = [[0.5 * (out[i][j] + out[n - 1 - i][n - 1 - j].conjugate()) for j in range(n)] for i in range(n)]
    return np.array(out)


def smooth(R, l, fb, how):
    from doatools.estimation.preprocessing import spatial_smooth
    if how == 'default':
        return spatial_smooth(R, l)
    if how == 'kw':
        return spatial_smooth(R, l=l, fb=fb)
    return spatial_smooth(R, l, fb)


def compare(R, l, fb, how, rec):
    R0 = R.copy()
    out = smooth(R, l, fb, how)
    rec.step()
    want = ss_ref(R.tolist(), l, fb)
    require(out.shape == want.shape, 'shape {} expected {}', out.shape, want.shape)
    tol = 1e-4 if R.dtype in (np.complex64, np.float32) else 1e-10
    require(np.all(np.abs(out - want) <= tol * np.max(np.abs(R0))), 'l={} fb={}: {} expected {}', l, fb, out.tolist(), want.tolist())
    require(np.array_equal(R, R0), 'input modified')
    out[...] = 0
    require(np.array_equal(R, R0), 'the result shares memory with the input')


KINDS = ['hermitian', 'real', 'int', 'general', 'general-real', 'c64', 'f32', 'fortran', 'view', 'readonly', 'int32', 'toeplitz', 'int8', 'int16', 'strided', 'reversed', 'offset', 'huge', 'tiny', 'dynamic', 'imag', 'diag', 'near-real']


def matrix(m, kind, seed):
    H = ref.hermitian(m, seed)
    G = ref.generic(m, m, seed)
    if kind == 'hermitian':
        return H
    if kind == 'real':
        return H.real.copy()
    if kind in ('int', 'int32'):
        return np.round(7 * H.real).astype(np.int64 if kind == 'int' else np.int32)
    if kind in ('int8', 'int16'):      # sums of entries exceed the range of the type
        t = np.dtype(kind)
        return np.round(0.9 * np.iinfo(t).max * np.where(np.eye(m), 1, np.sign(H.real) * 0.8)).astype(t)
    if kind == 'general':
        return G
    if kind == 'general-real':
        return G.real.copy()
    if kind == 'c64':
        return H.astype(np.complex64)
    if kind == 'f32':
        return H.real.astype(np.float32)
    if kind == 'fortran':
        return np.asfortranarray(G)
    if kind == 'view':
        return ref.generic(2 * m, 2 * m, seed)[::2, 1::2]
    if kind == 'readonly':
        G.setflags(write=False)
        return G
    if kind in alpha.LAYOUTS:
        return alpha.relayout(G, kind)
    if kind in ('huge', 'tiny'):
        return H * (1e150 if kind == 'huge' else 1e-150)
    if kind == 'dynamic':
        d = 10.0 ** -np.linspace(0, 3, m)
        return H * np.outer(d, d)
    if kind == 'imag':
        return 1j * G.real
    if kind == 'diag':
        return np.diag(np.arange(1.0, m + 1)) + 0j
    if kind == 'near-real':
        return H.real + 1e-7j * H.imag
    v = ref.generic(m, 1, seed).ravel()
    return np.array([[v[i - j] if i >= j else v[j - i].conj() for j in range(m)] for i in range(m)])


def gen_ss(c):
    m = c.choose('m', list(range(1, 13 if c.thorough else 8)))
    l = c.choose('l', list(range(1, m + 1)))
    fb, how = c.choose('mode', [(True, 'pos'), (False, 'pos'), (False, 'default'), (True, 'kw'), (False, 'kw')])
    return m, l, fb, how, c.choose('kind', KINDS), c.choose('seed', [0, 1, 2, 3] if c.thorough else [0, 1])


def run_ss(sc, rec):
    m, l, fb, how, kind, seed = sc
    compare(matrix(m, kind, seed), l, fb, how, rec)
    rec.state(*sc)


def gen_large(c):
    m = c.choose('m', [9, 12, 16, 17, 24, 33] + ([48, 64] if c.thorough else []))
    l = c.choose('l', [v for v in range(1, m + 1) if m <= 17 or v in (1, 2, 3, 7, 8, 9, 16, 17, m // 2, m // 2 + 1, m - 2, m - 1, m)])
    return m, l, c.choose('fb', [False, True]), c.choose('kind', KINDS)


def run_large(sc, rec):
    m, l, fb, kind = sc
    compare(matrix(m, kind, 5), l, fb, 'pos', rec)
    rec.state(*sc)


# The map is real-linear: it is decided completely by its value on a basis.
def gen_basis(c):
    m = c.choose('m', list(range(1, 9 if c.thorough else 7)))
    l = c.choose('l', list(range(1, m + 1)))
    fb = c.choose('fb', [False, True])
    i, j = c.choose('i', list(range(m))), c.choose('j', list(range(m)))
    return m, l, fb, i, j, c.choose('unit', [1.0, 1.0j, 1])


def run_basis(sc, rec):
    m, l, fb, i, j, u = sc
    R = np.zeros((m, m), dtype=type(u))
    R[i, j] = u
    compare(R, l, fb, 'pos', rec)
    rec.state(*sc)


def gen_bad(c):
    m = c.choose('m', [1, 2, 3, 5])
    return m, c.choose('l', [0, m + 1, -1, m + 2, -m, 2 * m + 1]), c.choose('fb', [False, True])


def run_bad(sc, rec):
    m, l, fb = sc
    from doatools.estimation.preprocessing import spatial_smooth
    R = ref.hermitian(m)
    R0 = R.copy()
    try:
        spatial_smooth(R, l, fb)
    except ValueError:
        require(np.array_equal(R, R0), 'input modified')
        rec.step()
        rec.state(*sc)
        return
    require(False, 'l = {} accepted for a {}x{} matrix', l, m, m)


def gen_rank(c):
    m = c.choose('m', [6, 5, 8] + ([10] if c.thorough else []))
    k = c.choose('k', [2, 1, 3])
    l = c.choose('l', list(range(1, m)))
    return m, k, l, c.choose('fb', [False, True]), c.choose('angles', [[-0.5, 0.2, 0.9], [0.1, 0.5, -1.0], [-1.2, 1.1, 0.0]])


def run_rank(sc, rec):
    """Coherent sources: the rank grows by one with every subarray."""
    m, k, l, fb, ang = sc
    from doatools.model.arrays import UniformLinearArray
    from doatools.model.sources import FarField1DSourcePlacement
    A = UniformLinearArray(m, 0.5).steering_matrix(FarField1DSourcePlacement(np.array(ang[:k])), 1.0)
    c = np.array([1.0, 0.8 * np.exp(1.1j), 1.3 * np.exp(-2.0j)])[:k]
    y = A @ c
    S = smooth(np.outer(y, y.conj()), l, fb, 'pos')
    n = m - l + 1
    want = min(k, n, 2 * l if fb else l)
    rec.step()
    lam = np.linalg.eigvalsh(S)[::-1]
    require(np.all(lam[:want] > 1e-6 * lam[0]) and np.all(np.abs(lam[want:]) < 1e-9 * lam[0] + 1e-12),
            'eigenvalues {} but rank {} expected', lam, want)
    En = np.linalg.eigh(S)[1][:, :n - want]
    if want == k and k < n:
        require(np.max(np.abs(En.conj().T @ A[:n])) < 1e-5, 'the signal subspace is not restored')
    rec.state(*sc)


YK = ['complex', 'real', 'int', 'rank1', 'zero', 'equal', 'c64', 'view', 'huge', 'tiny', 'strided', 'reversed', 'readonly', 'offset', 'int16', 'f32', 'dynamic rows', 'dynamic columns', 'near-real']


def snapshots(m, n, kind):
    G = ref.generic(m, n, 3)
    if kind == 'real':
        return G.real.copy()
    if kind == 'int':
        return np.round(5 * G.real).astype(int)
    if kind == 'rank1':
        return np.outer(G[:, 0], ref.generic(n, 1, 1).ravel())
    if kind == 'zero':
        return np.zeros((m, n))
    if kind == 'equal':
        return np.eye(m, n) * 2.0
    if kind == 'c64':
        return G.astype(np.complex64)
    if kind == 'view':
        return ref.generic(n, m, 3).T
    if kind in alpha.LAYOUTS:
        return alpha.relayout(G, kind)
    if kind == 'int16':
        return np.round(300 * G.real).astype(np.int16)
    if kind == 'f32':
        return G.real.astype(np.float32)
    if kind == 'dynamic rows':
        return G * 10.0 ** -np.linspace(0, 5, m)[:, None]
    if kind == 'dynamic columns':
        return G * 10.0 ** -np.linspace(0, 8, n)
    if kind == 'near-real':
        return G.real + 1e-6j * G.imag
    if kind == 'huge':
        return G * 1e100
    if kind == 'tiny':
        return G * 1e-100
    return G


def gen_svd(c):
    m = c.choose('m', list(range(1, 8 if c.thorough else 6)))
    n = c.choose('n', list(range(1, 12 if c.thorough else 8)) + [40])
    return m, n, c.choose('k', list(range(1, min(m, n) + 1))), c.choose('kind', YK)


def svd_check(Y, k, rec):
    from doatools.estimation.preprocessing import l1_svd
    Y0 = Y.copy()
    out = l1_svd(Y, k)
    rec.step()
    require(np.array_equal(Y, Y0), 'input modified')
    m, n = Y.shape
    require(out.shape == (m, k), 'shape {} expected {}', out.shape, (m, k))
    Y = Y.astype(complex if np.iscomplexobj(Y) else float) if Y.dtype.kind in 'iu' else Y
    sc = np.max(np.abs(Y)) or 1.0
    Z, D = Y / sc, out / sc
    tol = 1e-4 if Y.dtype in (np.complex64, np.float32) else 1e-9
    lam, E = np.linalg.eigh(Z @ Z.conj().T)
    lam, E = lam[::-1], E[:, ::-1]
    G = D @ D.conj().T
    tail = np.sqrt(max(0.0, np.sum(lam[k:] ** 2)))
    require(abs(np.linalg.norm(Z @ Z.conj().T - G) - tail) <= tol * (1 + lam[0]), 'Gram matrix is {} away from that of the snapshots, best rank-{} is {}',
            np.linalg.norm(Z @ Z.conj().T - G), k, tail)
    if k == len(lam) or lam[k - 1] - lam[k] > (1e-3 if tol < 1e-5 else 0.1) * lam[0]:
        require(ref.close(G, (E[:, :k] * lam[:k]) @ E[:, :k].conj().T, tol * 10), 'not the best rank-k approximation')
    # snapshots times orthonormal columns
    if lam[k - 1] > 1e-6 * lam[0] > 0:
        V = np.linalg.pinv(Z, rcond=1e-5 if tol > 1e-5 else 1e-10) @ D
        require(ref.close(Z @ V, D, tol * 100), 'result is not a combination of the snapshots')
        require(ref.close(V.conj().T @ V, np.eye(k), tol * 100), 'columns of the combination are not orthonormal')


def run_svd(sc, rec):
    m, n, k, kind = sc
    svd_check(snapshots(m, n, kind), k, rec)
    rec.state(*sc)


def gen_svdl(c):
    m = c.choose('m', [9, 16, 17, 33])
    n = c.choose('n', [8, 17, 100, 1000] + ([5000] if c.thorough else []))
    q = min(m, n)
    return m, n, c.choose('k', sorted({1, 2, 7, q // 2, q - 1, q})), c.choose('kind', YK)


def gen_small(c):
    m, n = c.choose('shape', [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(1, 4), (4, 1)] if c.thorough else []))
    return m, n, [c.choose('y', [0, 1, -1]) for _ in range(m * n)], c.choose('k', list(range(1, min(m, n) + 1)))


def run_small(sc, rec):
    m, n, y, k = sc
    svd_check(np.array(y, dtype=float).reshape(m, n), k, rec)
    rec.state(*sc)


HARNESSES = [Tree('smooth', gen_ss, run_ss), Tree('smooth-basis', gen_basis, run_basis), Tree('smooth-rejects', gen_bad, run_bad),
             Tree('smooth-large', gen_large, run_large),
             Tree('coherent', gen_rank, run_rank), Tree('l1svd-large', gen_svdl, run_svd), Tree('l1svd', gen_svd, run_svd), Tree('l1svd-small', gen_small, run_small)]
