"""C19 signal statistics and the snapshot model.

The random number generator is a seam: the functions of numpy.random are
replaced by a source that hands out chosen numbers.  An emission that is a
linear function of independent standard normal draws is completely described
by its responses to every unit draw, so its exact distribution is computed by
enumerating the draws - not estimated from samples."""
import contextlib
import itertools
import math

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Graph, Skip, Tree, require

ASSUMPTIONS = ['numpy.random produces independent standard normal / uniform numbers',
               'an implementation whose draws cannot be intercepted is only compared with seeded moments (counter "seam not used")']


class Tape:
    """Replaces the draws of numpy.random by the entries of a tape."""

    def __init__(self, normal=None, uniform=None):
        self.n = normal          # callable index -> value, or None
        self.u = uniform
        self.used_n = 0
        self.used_u = 0
        self.order = []

    def _take(self, size, kind):
        shape = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        cnt = int(np.prod(shape)) if shape else 1
        if kind == 'n':
            f, a = self.n, self.used_n
            self.used_n += cnt
        else:
            f, a = self.u, self.used_u
            self.used_u += cnt
        out = np.array([f(a + i) for i in range(cnt)], dtype=float)
        return out.reshape(shape) if shape else float(out[0])

    def randn(self, *shape):
        return self._take(shape or None, 'n')

    def standard_normal(self, size=None):
        return self._take(size, 'n')

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * self._take(size, 'n')

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape or None
        return low + (high - np.asarray(low)) * self._take(size, 'u')

    def rand(self, *shape):
        return self._take(shape or None, 'u')

    def random_sample(self, size=None):
        return self._take(size, 'u')

    @contextlib.contextmanager
    def installed(self):
        names = ['randn', 'standard_normal', 'normal', 'uniform', 'rand', 'random_sample', 'random', 'ranf', 'sample']
        old = {n: getattr(np.random, n) for n in names}
        try:
            for n in names:
                setattr(np.random, n, getattr(self, n if n in Tape.__dict__ else 'random_sample'))
            yield self
        finally:
            for n, f in old.items():
                setattr(np.random, n, f)


def gens():
    from doatools.model import signals
    return signals


def covariances(dim, thorough):
    """(name, argument, dim x dim reference covariance, tolerance)"""
    out = [('default', None, np.eye(dim), 1e-9)]
    for v in (2.5, 3, 1e-8, 0.0, 1e6):
        out.append(('scalar%g' % v, v, v * np.eye(dim), 1e-9))
    v = np.array([0.5 + 1.3 * i for i in range(dim)])
    out.append(('vector', v, np.diag(v), 1e-9))
    out.append(('int-vector', np.arange(1, dim + 1), np.diag(np.arange(1, dim + 1.0)), 1e-9))
    z = v.copy()
    z[0] = 0
    out.append(('vector-with-zero', z, np.diag(z), 1e-9))
    out.append(('diag', np.diag(v), np.diag(v), 1e-9))
    M = ref.herm_pd(dim, 1, 0.3)
    out.append(('complex', M, M, 1e-8))
    out.append(('complex-scaled', 1e4 * M, 1e4 * M, 1e-8))
    for e in (1e-6, 1e-11, 1e-24, 1e14):
        out.append(('complex times %g' % e, e * M, e * M, 1e-8))
    Mr = ref.herm_pd(dim, 3, 0.3).real.copy()
    out.append(('real', Mr, Mr, 1e-8))
    out.append(('int', np.eye(dim, dtype=int) * 2 + 1, np.eye(dim) * 2.0 + 1, 1e-8))
    if dim > 1:
        K = ref.hermitian(dim, 4)
        for e in (1e-3, 2e-6):
            out.append(('near-real%g' % e, Mr + 1j * e * K.imag, Mr + 1j * e * K.imag, 1e-8))
            out.append(('near-diag%g' % e, np.diag(v) + e * K * (1 - np.eye(dim)), np.diag(v) + e * K * (1 - np.eye(dim)), 1e-8))
        a = 10.0 ** -np.array([4.0 * i / (dim - 1) for i in range(dim)])
        out.append(('near-far', M * np.outer(a, a), M * np.outer(a, a), 1e-5))
        out.append(('near-far real', Mr * np.outer(a, a)[::-1, ::-1], Mr * np.outer(a, a)[::-1, ::-1], 1e-5))
        out.append(('near-far vector', a ** 4, np.diag(a ** 4), 1e-9))
        out.append(('near-coherent', np.ones((dim, dim)) + 1e-3 * np.diag(v), np.ones((dim, dim)) + 1e-3 * np.diag(v), 1e-7))
    out.append(('real-coherent', np.ones((dim, dim)), np.ones((dim, dim)), 1e-5))
    if dim > 1:
        g = ref.generic(dim, 1, 5)
        out.append(('rank1', g @ g.conj().T, g @ g.conj().T, 1e-5))
        G = ref.generic(dim, dim - 1, 2)
        out.append(('rank-1 short', G @ G.conj().T, G @ G.conj().T, 1e-5))
        t = np.array([[0.9 ** abs(i - j) * np.exp(0.4j * (i - j)) for j in range(dim)] for i in range(dim)])
        out.append(('toeplitz', t, t, 1e-8))
        b = np.zeros((dim, dim), dtype=complex)
        b[:2, :2] = [[2, 1 - 0.5j], [1 + 0.5j, 1]]
        out.append(('block-singular' if dim > 2 else 'block', b, b, 1e-5))
        d = v[::-1].copy()
        out.append(('vector-descending', d, np.diag(d), 1e-9))
        out.append(('diag-descending', np.diag(d), np.diag(d), 1e-9))
        out.append(('complex-typed vector', v.astype(complex), np.diag(v), 1e-9))
        out.append(('imag', np.eye(dim) * 2 + 0.5j * (np.eye(dim, k=1) - np.eye(dim, k=-1)), np.eye(dim) * 2 + 0.5j * (np.eye(dim, k=1) - np.eye(dim, k=-1)), 1e-8))
        # isotropic up to one entry: equal variances but correlated, or uncorrelated and almost equal
        e = np.eye(dim) * 1.5
        e[0, -1] = e[-1, 0] = -0.4
        out.append(('equal-diag one pair', e, e, 1e-8))
        q = np.full(dim, 0.7)
        q[-1] = 0.7004
        out.append(('almost-equal vector', q, np.diag(q), 1e-9))
        out.append(('constant vector', np.full(dim, 0.7), 0.7 * np.eye(dim), 1e-9))
    for how in alpha.LAYOUTS:
        out.append(('vector ' + how, alpha.relayout(v, how), np.diag(v), 1e-9))
        out.append(('complex ' + how, alpha.relayout(M, how), M, 1e-8))
    for how in ('int16', 'int8', 'float32'):
        w = alpha.typed(np.minimum(5 * v, 120), how)
        out.append(('vector ' + how, w, np.diag(w.astype(float)), 1e-5 if how == 'float32' else 1e-9))
        K = alpha.typed(np.eye(dim) * 3 + 1, how)
        out.append(('matrix ' + how, K, K.astype(float), 1e-4 if how == 'float32' else 1e-8))
        out.append(('scalar ' + how, np.dtype(how).type(3), 3.0 * np.eye(dim), 1e-5 if how == 'float32' else 1e-9))
    out.append(('complex64', M.astype(np.complex64), M, 1e-4))
    out.append(('scalar float64', np.float64(2.25), 2.25 * np.eye(dim), 1e-9))
    return out


def gen_sto(c):
    dim = c.choose('dim', [2, 1, 3, 4, 5, 6, 7] + ([8, 10, 11, 13] if c.thorough else []))
    cov = c.choose('covariance', covariances(dim, c.thorough))
    n = c.choose('n', [2, 1, 3, 0] + ([5] if c.thorough else []))
    return dim, cov, n


def gen_sto_large(c):
    dim, n = c.choose('dim, n', [(8, 3), (9, 2), (12, 2), (20, 1), (33, 1), (64, 1), (100, 1), (3, 64), (2, 257), (1, 1025), (5, 17)] + ([(16, 8), (2, 600)] if c.thorough else []))
    return dim, c.choose('covariance', covariances(dim, c.thorough)), n


def make_sto(dim, arg):
    S = gens().ComplexStochasticSignal
    return S(dim) if arg is None else S(dim, arg)


def run_sto(sc, rec):
    dim, (name, arg, C, tol), n = sc
    a0 = None if arg is None else np.array(arg, copy=True)
    g = make_sto(dim, arg)
    require(g.dim == dim, 'dim {}', g.dim)
    t = Tape(lambda i: 0.0, lambda i: 0.0)
    with t.installed():
        X = np.array(g.emit(n))
    rec.step()
    require(X.shape == (dim, n), 'emitted shape {} expected {}', X.shape, (dim, n))
    if t.used_n == 0 or t.used_u:
        return moments(g, dim, C, rec) if n else None
    require(np.all(np.abs(X) <= 1e-12), 'mean of the signal is {}', X)
    q = t.used_n
    resp = np.zeros((q, dim * n), dtype=complex)
    for i in range(q):
        t = Tape(lambda j: 1.0 if j == i else 0.0, lambda j: 0.0)
        with t.installed():
            resp[i] = g.emit(n).T.ravel()      # snapshot by snapshot
        require(t.used_n == q, 'number of draws depends on the values drawn')
        rec.step()
    sc_ = np.max(np.abs(C)) if C.size else 1.0
    sc_ = sc_ or 1.0
    if 'near-far' in name:          # every component at its own scale
        d = np.tile(np.sqrt(np.diag(C).real), n)
        sc_ = np.outer(d, d)
    # vec(X) = resp^T z with z ~ N(0, I)
    cov = resp.T @ resp.conj()
    pse = resp.T @ resp
    want = np.kron(np.eye(n), C)
    require(np.all(np.abs(cov - want) <= tol * sc_), 'covariance of the emitted samples is {} expected {} ({})', cov.tolist(), want.tolist(), name)
    require(np.all(np.abs(pse) <= tol * sc_), 'samples are not circular: E[x x^T] = {}', pse.tolist())
    # linear: the response to any draw is the combination of the responses
    for s in range(3):
        z = np.array([math.sin(2.7 * i + s) * (1 + s * i) for i in range(q)])
        with Tape(lambda j: z[j], lambda j: 0.0).installed():
            Y = g.emit(n).T.ravel()
        require(ref.close(Y, resp.T @ z, 1e-8), 'samples are not a linear function of the normal draws')
        rec.step()
    if arg is not None:
        require(np.array_equal(np.array(arg), a0), 'covariance argument modified')
    rec.state(dim, name, n)


def moments(g, dim, C, rec):
    rec.count('seam not used')
    np.random.seed(12345)
    X = g.emit(40000)
    E = X @ X.conj().T / X.shape[1]
    s = np.max(np.abs(C)) or 1.0
    require(np.max(np.abs(E - C)) < 0.06 * s and np.max(np.abs(X @ X.T / X.shape[1])) < 0.06 * s, 'sample covariance {} expected {}', E, C)


# ------------------------------------------------------------ random phases
def amplitudes(dim):
    v = np.array([0.5 + 0.9 * i for i in range(dim)])
    return [('default', None, np.ones(dim)), ('scalar', 2.5, 2.5 * np.ones(dim)), ('int', 3, 3.0 * np.ones(dim)), ('zero', 0.0, np.zeros(dim)),
            ('vector', v, v), ('column', v.reshape(-1, 1), v), ('row', v.reshape(1, -1), v), ('int-vector', np.arange(1, dim + 1), np.arange(1, dim + 1.0)),
            ('descending', v[::-1].copy(), v[::-1]), ('constant', np.full(dim, 1.7), np.full(dim, 1.7)), ('small', 1e-5 * v, 1e-5 * v), ('large', 1e6 * v, 1e6 * v),
            ('dynamic', 10.0 ** (3 * np.arange(dim) % 13 - 4), 10.0 ** (3 * np.arange(dim) % 13 - 4)), ('one zero', v * (np.arange(dim) > 0), v * (np.arange(dim) > 0)),
            ('numpy scalar', np.float64(0.3), np.full(dim, 0.3)), ('int8', np.arange(1, dim + 1).astype(np.int8), np.arange(1.0, dim + 1)),
            ('int16 scalar', np.int16(300), np.full(dim, 300.0)), ('float32', v.astype(np.float32), v.astype(np.float32).astype(float))] + \
        [('vector ' + how, alpha.relayout(v, how), v) for how in alpha.LAYOUTS] + [('row ' + how, alpha.relayout(v.reshape(1, -1), how), v) for how in ('strided', 'reversed')]


def gen_phase(c):
    dim = c.choose('dim', [2, 1, 3] + ([4] if c.thorough else []))
    return dim, c.choose('amplitudes', amplitudes(dim)), c.choose('n', [2, 1, 3, 0])


def gen_phase_large(c):
    dim, n = c.choose('dim, n', [(8, 3), (12, 2), (20, 1), (3, 33), (1, 130), (64, 1), (100, 1), (2, 65)])
    return dim, c.choose('amplitudes', amplitudes(dim)), n


Q = 32


def run_phase(sc, rec):
    dim, (name, arg, amp), n = sc
    R = gens().RandomPhaseSignal
    g = R(dim) if arg is None else R(dim, arg)
    require(g.dim == dim, 'dim {}', g.dim)
    base = lambda j: 0.37

    def emit(u):
        t = Tape(lambda j: 0.0, u)
        with t.installed():
            X = np.array(g.emit(n))
        rec.step()
        return X, t
    X0, t = emit(base)
    require(X0.shape == (dim, n), 'emitted shape {} expected {}', X0.shape, (dim, n))
    require(np.iscomplexobj(X0), 'real samples')
    if (t.used_u == 0 or t.used_n) and n:
        rec.count('seam not used')
        np.random.seed(99)
        X = g.emit(40000)
        require(np.allclose(np.abs(X), amp[:, None]), 'amplitudes')
        for k in range(1, 4):
            require(np.all(np.abs(np.mean(np.exp(1j * k * np.angle(X)), axis=1)) < 0.05) or not amp.any(), 'phases not uniform')
        return
    q = t.used_u
    owner = {}
    for i in range(q):
        X, _ = emit(lambda j: 0.61 if j == i else 0.37)
        ch = np.argwhere(np.abs(X - X0) > 1e-9 * np.where(amp > 0, amp, 1)[:, None])
        if amp.all():
            require(len(ch) == 1, 'draw {} changes {} samples: phases are not independent', i, len(ch))
            key = tuple(ch[0])
            require(key not in owner, 'sample {} depends on two draws', key)
            owner[key] = i
    if amp.all():
        require(len(owner) == dim * n, 'only {} of {} samples are random', len(owner), dim * n)
    # uniform: equispaced draws give equispaced phases
    ph = []
    for s in range(Q):
        X, _ = emit(lambda j: (s + 0.5) / Q)
        require(np.all(np.abs(np.abs(X) - amp[:, None]) <= (1e-6 if name == 'float32' else 1e-9) * amp[:, None]), 'amplitudes {} expected {} ({})', np.abs(X), amp, name)
        ph.append(np.angle(X))
    if n and amp.all():
        ph = np.array(ph).reshape(Q, -1)
        for k in range(ph.shape[1]):
            a = np.sort(ph[:, k] - ph[0, k] - 1e-6 * 0 + 2 * math.pi * (ph[:, k] - ph[0, k] < -1e-9))
            require(np.max(np.abs(a - 2 * math.pi * np.arange(Q) / Q)) < 1e-6, 'phases of sample {} are not uniform on the circle: {}', k, a)
    rec.state(dim, name, n)


# --------------------------------------------------- the global random state
def gen_list():
    S = gens()
    return {'sto2': lambda: S.ComplexStochasticSignal(2, 1.5), 'stoC': lambda: S.ComplexStochasticSignal(3, ref.herm_pd(3, 1)),
            'phase': lambda: S.RandomPhaseSignal(2, np.array([1.0, 2.0])), 'stov': lambda: S.ComplexStochasticSignal(2, np.array([1.0, 2.0]))}


def hist_events():
    ev = [('seed', 7)]
    for n in ('sto2', 'stoC', 'phase', 'stov'):
        ev.append(('emit', n, 2))
    ev.append(('emit', 'sto2', 1))
    ev.append(('snap', 2))
    ev.append(('mutate',))
    return ev


def run_hist(hist, rec):
    """Every emission equals that of a fresh generator from the same state of
    the global generator, and consecutive emissions differ."""
    make = gen_list()
    live = {k: f() for k, f in make.items()}
    np.random.seed(3)
    outs, keep = [], []
    from doatools.model.snapshots import get_narrowband_snapshots
    arr = alpha.ula(3, 0.5).make()
    src = alpha.SourceSpec('ff1d', [0.1, 0.5], 'rad').make()
    for e in hist:
        if e[0] == 'seed':
            np.random.seed(e[1])
            continue
        if e[0] == 'mutate':
            for o in outs:
                o[...] = -5
            keep = [o.copy() for o in outs]
            continue
        st = np.random.get_state()
        if e[0] == 'emit':
            x = live[e[1]].emit(e[2])
            after = np.random.get_state()
            np.random.set_state(st)
            y = make[e[1]]().emit(e[2])
        else:
            x = get_narrowband_snapshots(arr, src, 1.0, live['sto2'], live['stoC'], e[1])
            after = np.random.get_state()
            np.random.set_state(st)
            y = get_narrowband_snapshots(arr, src, 1.0, make['sto2'](), make['stoC'](), e[1])
        rec.step()
        after2 = np.random.get_state()
        require(np.array_equal(x, y), '{}: {} but a fresh generator emits {} from the same random state', e, x, y)
        require(after[2] == after2[2] and np.array_equal(after[1], after2[1]), 'random state differs afterwards')
        require(not (after[2] == st[2] and after[3] == st[3] and np.array_equal(after[1], st[1])), 'nothing drawn from the global random state')
        np.random.set_state(after)
        outs.append(x)
        keep.append(x.copy())
        for a, b in zip(outs, keep):
            require(np.array_equal(a, b), 'an earlier emission changed')
    return tuple(hist), hist_events()


# --------------------------------------------------------------- snapshots
def gen_snap(c):
    s = c.choose('array', [x for x in SP.setups(c.thorough)])
    kind = c.choose('kind', list(s.kinds))
    k = c.choose('k', [2, 1, 3, 7])
    n = c.choose('n', [3, 1, 8])
    noise = c.choose('noise', ['complex', 'none', 'real', 'int', 'readonly', 'fortran', 'strided', 'reversed', 'complex64'])
    return s, kind, k, n, noise, c.choose('signal', ['complex', 'real', 'int', 'readonly', 'fortran', 'strided', 'reversed', 'int8', 'complex64']), c.choose('cov', ['default', True, False])


def gen_snap_large(c):
    s = c.choose('array', SP.large_setups() + [SP.Setup('L-' + a.name, a, dims=('ff1d', 'ff2d', 'nf2d') if a.loc.shape[1] > 1 else ('ff1d', 'nf2d')) for a in alpha.large_arrays(33)])
    kind = c.choose('kind', list(s.kinds))
    return (s, kind, c.choose('k', [7, 16, 33]), c.choose('n', [64, 1, 1000, 4097]), c.choose('noise', ['complex', 'none', 'real']),
            c.choose('signal', ['complex', 'real']), c.choose('cov', ['default', True]))


def data(r, n, how, seed):
    X = ref.generic(r, n, seed)
    if how == 'real':
        return X.real.copy()
    if how == 'int':
        return np.round(4 * X.real).astype(int)
    if how == 'int8':
        return np.round(30 * X.real / np.max(np.abs(X))).astype(np.int8)
    if how == 'complex64':
        return X.astype(np.complex64)
    if how in alpha.LAYOUTS:
        return alpha.relayout(X, how)
    return X


def run_snap(sc, rec):
    s, kind, k, n, noise, sig, cov = sc
    from doatools.model.signals import SignalGenerator
    from doatools.model.snapshots import get_narrowband_snapshots
    calls = []

    class Fixed(SignalGenerator):
        def __init__(self, tag, X):
            self.tag, self.X = tag, X

        @property
        def dim(self):
            return self.X.shape[0]

        def emit(self, m):
            calls.append((self.tag, m))
            return self.X[:, :m]
    unit = {'ff1d': 'rad', 'ff2d': 'rad', 'nf2d': 'm'}[kind]
    pts = {'ff1d': [0.2, -0.6, 1.0, 0.5, -1.2, 0.8, -0.1], 'ff2d': [[0.3 * i - 0.8, 0.15 * i] for i in range(7)],
           'nf2d': [[i - 2.5, 1.0 + 0.4 * i] for i in range(7)]}[kind][:k]
    if k > 7:
        pts = alpha.many_sources(kind, unit, k)
    S, N = data(k, n, sig, 2), data(s.size, n, noise, 4)
    S0, N0 = S.copy(), N.copy()
    A = s.steering(kind, pts, unit, 0.9, 'all')
    want = A @ S + (0 if noise == 'none' else N)
    arr, src = s.make(), alpha.SourceSpec(kind, pts, unit).make()
    l0 = src.locations.copy()
    args = [arr, src, 0.9, Fixed('s', S)]
    kw = {} if n == 1 else {'n_snapshots': n}
    if noise != 'none':
        kw['noise_signal'] = Fixed('n', N)
    if cov != 'default':
        kw['return_covariance'] = cov
    out = get_narrowband_snapshots(*args, **kw)
    rec.step()
    if cov is True:
        require(isinstance(out, tuple) and len(out) == 2, 'covariance requested but {} returned', type(out))
        Y, R = out
        WR = np.einsum('in,jn->ij', want, want.conj()) / n
        require(R.shape == WR.shape and ref.close(R, WR, 1e-9), 'covariance {} expected {}', R, WR)
    else:
        Y = out
    require(isinstance(Y, np.ndarray) and Y.shape == (s.size, n), 'snapshots of shape {}', np.shape(Y))
    require(ref.close(Y, want, 1e-9), 'snapshots {} expected {}', Y, want)
    require(sorted(calls) == sorted([('s', n)] + ([('n', n)] if noise != 'none' else [])), 'generators were called {}', calls)
    require(np.array_equal(S, S0) and np.array_equal(N, N0) and np.array_equal(src.locations, l0), 'inputs modified')
    Y[...] = 0
    require(np.array_equal(S, S0) and np.array_equal(N, N0), 'snapshots share memory with the signals')
    rec.state(s.name, kind, k, n, noise, sig, cov)


# end to end: snapshots of stochastic signals are circular Gaussian with
# covariance A P A^H + Q
# one generator object may drive both the sources and the noise
def gen_shared(c):
    return c.choose('dim', [1, 2, 3, 5]), c.choose('n', [1, 2, 6]), c.choose('cov', [False, True]), c.choose('calls', [1, 2, 3])


def run_shared(sc, rec):
    dim, n, cov, times = sc
    from doatools.model.signals import SignalGenerator
    from doatools.model.snapshots import get_narrowband_snapshots

    class Counting(SignalGenerator):
        """Emission i is generic(dim, n, i)"""
        i = 0

        @property
        def dim(self):
            return dim

        def emit(self, m):
            self.i += 1
            return ref.generic(dim, m, self.i + 3)
    g = Counting()
    sp = alpha.ula(dim, 0.5)
    pts = [-1.1 + 0.5 * i for i in range(dim)]
    A = ref.steering(sp.loc, 'ff1d', pts, 'rad', 1.0, [])[0]
    arr, src = sp.make(), alpha.SourceSpec('ff1d', pts, 'rad').make()
    seen = []
    for t in range(times):
        out = get_narrowband_snapshots(arr, src, 1.0, g, g, n, cov)
        Y = out[0] if cov else out
        want = [A @ ref.generic(dim, n, 2 * t + a) + ref.generic(dim, n, 2 * t + b) for a, b in ((4, 5), (5, 4))]
        require(any(ref.close(Y, w, 1e-9) for w in want), 'snapshots {} expected {}: the generator emits anew for the sources and for the noise', Y, want[0])
        require(not cov or ref.close(out[1], Y @ Y.conj().T / n, 1e-9), 'covariance')
        seen.append((Y, Y.copy()))
        rec.step()
    require(g.i == 2 * times, '{} emissions for {} calls', g.i, times)
    require(all(np.array_equal(a, b) for a, b in seen), 'earlier snapshots changed')
    rec.state(*sc)


def gen_e2e(c):
    s = c.choose('array', SP.setups(c.thorough))
    return s, c.choose('P', ['vector', 'complex']), c.choose('noise', ['scalar', 'complex', 'none']), c.choose('n', [1, 2])


def run_e2e(sc, rec):
    s, pk, nk, n = sc
    from doatools.model.snapshots import get_narrowband_snapshots
    S = gens().ComplexStochasticSignal
    pts = [0.2, -0.6]
    A = s.steering('ff1d', pts, 'rad', 1.0, 'all')
    P = np.array([1.0, 2.0]) if pk == 'vector' else ref.herm_pd(2, 3)
    m = s.size
    Nc = {'scalar': 0.3, 'complex': ref.herm_pd(m, 2), 'none': None}[nk]
    want = A @ (np.diag(P) if P.ndim == 1 else P) @ A.conj().T + (0 if Nc is None else Nc * np.eye(m) if np.isscalar(Nc) else Nc)
    g1, g2 = S(2, P), None if Nc is None else S(m, Nc)
    arr, src = s.make(), alpha.SourceSpec('ff1d', pts, 'rad').make()

    def go(f):
        t = Tape(f, lambda j: 0.0)
        with t.installed():
            Y = get_narrowband_snapshots(arr, src, 1.0, g1, g2, n)
        rec.step()
        return Y.T.ravel(), t.used_n
    y, q = go(lambda j: 0.0)
    if q == 0:
        rec.count('seam not used')
        return
    require(np.all(np.abs(y) < 1e-12), 'snapshots have mean {}', y)
    resp = np.array([go(lambda j: 1.0 if j == i else 0.0)[0] for i in range(q)])
    require(ref.close(resp.T @ resp.conj(), np.kron(np.eye(n), want), 1e-8), 'covariance of the snapshots is {} expected {}',
            (resp.T @ resp.conj())[:m, :m], want)
    require(np.max(np.abs(resp.T @ resp)) < 1e-8 * (1 + np.max(np.abs(want))), 'snapshots are not circular')
    rec.state(s.name, pk, nk, n)


def gen_randcn(c):
    return c.choose('shape', [(2,), (2, 3), (1, 1), (2, 2, 2), (0, 2), (4, 1)])


def run_randcn(shape, rec):
    from doatools.utils.math import randcn
    t = Tape(lambda j: 0.0, lambda j: 0.0)
    with t.installed():
        x = randcn(shape)
    require(x.shape == shape, 'shape {}', x.shape)
    if t.used_n == 0 and x.size:
        rec.count('seam not used')
        return
    resp = []
    for i in range(t.used_n):
        with Tape(lambda j: 1.0 if j == i else 0.0, lambda j: 0.0).installed():
            resp.append(randcn(shape).ravel())
        rec.step()
    resp = np.array(resp).reshape(t.used_n, x.size)
    require(ref.close(resp.T @ resp.conj(), np.eye(x.size), 1e-12) and np.max(np.abs(resp.T @ resp), initial=0) < 1e-12,
            'covariance {}, pseudo-covariance {}', resp.T @ resp.conj(), resp.T @ resp)
    rec.state(shape)


HARNESSES = [Tree('randcn', gen_randcn, run_randcn), Tree('shared generator', gen_shared, run_shared), Tree('stochastic', gen_sto, run_sto), Tree('random-phase', gen_phase, run_phase),
             Graph('random-state', run_hist, {'quick': 4, 'thorough': 5}),
             Tree('stochastic-large', gen_sto_large, run_sto), Tree('random-phase-large', gen_phase_large, run_phase),
             Tree('snapshots-large', gen_snap_large, run_snap, bound={'quick': 4, 'thorough': None}), Tree('snapshots', gen_snap, run_snap), Tree('end-to-end', gen_e2e, run_e2e)]
