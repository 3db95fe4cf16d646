"""C12 root-MUSIC and ESPRIT."""
import functools
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['root-MUSIC on an exactly ideal covariance is compared with tolerance 5e-3 rad (double roots)',
               'arbitrary covariances whose polynomial has two roots equally close to the unit circle are outside the quantifier']
SINS = [-0.85, -0.55, -0.2, 0.1, 0.4, 0.75]


@functools.lru_cache(None)
def sets(k):
    return list(itertools.combinations(SINS, k))


def ideal(m, ratio, sins, pw, sigma):
    A = np.array([[np.exp(2j * math.pi * ratio * i * s) for s in sins] for i in range(m)])
    p = np.array([1.0 if pw == 0 else 0.3 + 0.8 * ((3 * i) % 4) for i in range(len(sins))])
    return (A * p) @ A.conj().T + sigma * np.eye(m)


def spacing(c):
    """(d0 as passed, actual d0, wavelength)"""
    wl = c.choose('wl', [1.0, 0.3, 2.6, 'whole'])
    if wl == 'whole':
        return c.choose('d0, wl', [(None, 0.5, 3), (1, 1 / 3, 3), (np.int64(1), 0.5, np.int64(2))])
    f = c.choose('d0/wl', [None, 0.5, 0.3, 0.25])
    return (None if f is None else f * wl), (0.5 if f is None else f), wl


# ------------------------------------------------------------------- ESPRIT
def weights(how, n):
    if how == 'custom':
        return np.array([1.0 + 0.4 * math.sin(2.0 * i) for i in range(n)])
    if how == 'ramp':
        return np.array([float(i + 1) for i in range(n)])
    if how == 'down':
        return np.array([float(n - i) for i in range(n)])
    if how == 'int':
        return np.array([1 + (3 * i) % 4 for i in range(n)])
    if how == 'int8':
        return np.array([100 + (3 * i) % 4 for i in range(n)], dtype=np.int8)
    if how == 'zeros':              # some rows are not used
        return np.array([0.0 if i % 3 == 1 and n > 3 else 1.5 for i in range(n)])
    if how == 'signs':
        return np.array([(-1.0) ** i * (1.0 + 0.1 * i) for i in range(n)])
    if how == 'wide':
        return np.array([10.0 ** (-(i % 4)) for i in range(n)])
    if how == 'small':
        return np.array([1e-7 * (1 + 0.3 * i) for i in range(n)])
    if how in alpha.LAYOUTS:
        return alpha.relayout(weights('custom', n), how)
    return how


def ref_weights(how, n):
    if how in ('default', None):
        return np.sqrt([min(i + 1, n - i) for i in range(n)])
    if how == 'none':
        return np.ones(n)
    return weights(how, n)


def gen_esprit(c):
    m = c.choose('m', list(range(2, 9 if c.thorough else 7)))
    disp = c.choose('displacement', [d for d in (None, 1, 2, 3) if (d or 1) < m])
    k = c.choose('k', list(range(1, min(m - (disp or 1), 4) + 1)))
    d0, f, wl = spacing(c)
    sins = c.choose('sources', sets(k))
    form = c.choose('formulation', [None, 'ls', 'tls'])
    w = c.choose('weights', [None, 'default', 'none', 'custom', 'ramp'])
    if c.thorough:
        pw, sigma = c.choose('power', [0, 1]), c.choose('sigma', [0.0, 0.5])
    else:
        pw, sigma = (1, 0.5) if form == 'tls' else (1, 0.0) if w == 'custom' else (0, 0.2)
    unit = c.choose('unit', [None, 'rad', 'deg', 'sin'] if c.thorough or k == 2 else ['rad'])
    return m, disp, k, d0, f, wl, sins, form, w, pw, sigma, unit


def call_esprit(R, k, wl, d0, disp, form, w, unit):
    from doatools.estimation.esprit import Esprit1D
    kw = {}
    if d0 is not None:
        kw['d0'] = d0
    if disp is not None:
        kw['displacement'] = disp
    if form is not None:
        kw['formulation'] = form
    W = None
    if w is not None:
        kw['row_weights'] = W = weights(w, R.shape[0] - (disp or 1))
    if unit is not None:
        kw['unit'] = unit
    R0, W0 = R.copy(), (W.copy() if isinstance(W, np.ndarray) else W)
    ret = Esprit1D(wl).estimate(R, k, **kw)
    require(len(ret) == 2, 'return value of length {}', len(ret))
    require(np.array_equal(R, R0), 'covariance modified')
    require(not isinstance(W, np.ndarray) or np.array_equal(W, W0), 'weights modified')
    return ret


def check_doas(est, sins, unit, tol):
    from doatools.model.sources import FarField1DSourcePlacement as F
    u = unit or 'rad'
    require(type(est) is F and tuple(est.units) == (u,), 'kind or unit of the estimates {}', est)
    want = np.array(sorted(sins))
    loc = np.asarray(est.locations)
    require(loc.shape == want.shape, '{} estimates, expected {}', loc.shape, want.shape)
    require(np.all(np.diff(loc) >= 0), 'estimates {} not ascending', loc)
    got = np.array([math.sin(ref.to_rad(v, u)) if u != 'sin' else v for v in loc])
    require(np.all(np.abs(got - want) <= tol), 'estimates (sin) {} expected {}', got, want)


def run_esprit(sc, rec):
    m, disp, k, d0, f, wl, sins, form, w, pw, sigma, unit = sc
    if max(abs(s) for s in sins) * f * (disp or 1) >= 0.49:
        raise Skip()
    # distinct after aliasing by construction (all phases within (-pi, pi))
    R = ideal(m, f, sins, pw, sigma)
    ok, est = call_esprit(R, k, wl, d0, disp, form, w, unit)
    require(ok, 'not resolved')
    check_doas(est, sins, unit, 2e-5)
    rec.step()
    rec.state(m, disp, sins, d0, wl, form, w, unit)


def gen_esprit_any(c):
    m = c.choose('m', list(range(2, 8 if c.thorough else 7)))
    disp = c.choose('displacement', [d for d in (1, 2, 3) if d < m])
    k = c.choose('k', list(range(1, m - disp + 1)))
    return m, disp, k, c.choose('R', ['pd0', 'pd1', 'pd2', 'real', 'ideal+', 'indef', 'nearr3e-4', 'nearw3e-3']), c.choose('ratio', [0.5, 0.8]), \
        c.choose('formulation', ['ls', 'tls']), c.choose('weights', [None, 'default', 'none', 'custom', 'ramp'])


OTHER_W = ['down', 'int', 'int8', 'zeros', 'signs', 'wide', 'small'] + alpha.LAYOUTS[1:]


def gen_esprit_w(c):
    m = c.choose('m', [3, 4, 5, 6, 8])
    disp = c.choose('displacement', [d for d in (1, 2) if d < m])
    k = c.choose('k', list(range(1, min(3, m - disp) + 1)))
    r, lay = c.choose('R,layout', [('pd1', None), ('indef', None), ('diag', None), ('int', None)] + [(r, x) for r in ('pd0', 'int') for x in alpha.COV_LAYOUTS])
    return m, disp, k, r, 0.5, c.choose('formulation', ['ls', 'tls']), c.choose('weights', [None, 'none', 'custom'] + OTHER_W if lay is None else [None, 'int', 'custom']), lay


def anyR(name, m):
    if name == 'diag':
        return np.diag(1.0 + 0.7 * np.arange(m)[::-1])
    if name == 'int':
        X = np.array([[(3 * i + 5 * j * j + 2 * i * j) % 7 - 3 for j in range(m)] for i in range(m)])
        return X @ X.T + np.diag(np.arange(1, m + 1))
    if name == 'real':
        G = ref.generic(m, m, 7, False)
        return G @ G.T / m + 0.1 * np.eye(m)
    if name.startswith('near'):      # almost real, almost white
        K = ref.hermitian(m, 4)
        e = float(name[5:])
        return anyR('real', m) + 1j * e * K.imag if name[4] == 'r' else np.eye(m) + e * K
    if name == 'indef':
        U = np.linalg.eigh(ref.herm_pd(m, 9))[1]
        return (U * (0.4 + 0.7 * np.arange(m) - 0.6 * (m - 1))) @ U.conj().T
    if name == 'ideal+':
        R = ideal(m, 0.5, SINS[1:3], 1, 0.3) + 0.05 * ref.hermitian(m, 2)
        return 0.5 * (R + R.conj().T)
    return ref.herm_pd(m, 11 * int(name[2]) + 1, 0.2)


def run_esprit_any(sc, rec):
    m, disp, k, r, f, form, w = sc[:7]
    R = alpha.relayout(anyR(r, m), sc[7] if len(sc) > 7 else None)
    v, E = np.linalg.eigh(R)
    Es = E[:, np.argsort(v)[-k:]]
    W = ref_weights(w, m - disp)
    E1, E2 = W[:, None] * Es[:m - disp], W[:, None] * Es[disp:]
    if form == 'ls':
        Phi = np.linalg.lstsq(E1, E2, rcond=None)[0]
        if np.linalg.svd(E1, compute_uv=False)[-1] < 1e-3 * np.max(np.abs(W)):
            raise Skip()
    else:
        _, sv, Vh = np.linalg.svd(np.hstack([E1, E2]), full_matrices=True)
        sv = np.concatenate([sv, np.zeros(2 * k - len(sv))])
        if sv[k - 1] - sv[k] < 1e-3 * np.max(np.abs(W)):
            raise Skip()
        V = Vh.conj().T
        if np.linalg.svd(V[k:, k:], compute_uv=False)[-1] < 1e-3:
            raise Skip()
        Phi = -V[:k, k:] @ np.linalg.inv(V[k:, k:])
    z, X = np.linalg.eig(Phi)
    if np.min(np.abs(z)) < 1e-3 or np.linalg.cond(X) > 1e4:
        raise Skip()
    ang = np.angle(z)
    if np.any(np.abs(ang) > math.pi - 1e-3):
        raise Skip()
    ok, est = call_esprit(R, k, 1.0, f, disp, form, w, 'sin')
    require(ok, 'not resolved')
    check_doas(est, ang / (2 * math.pi * f * disp), 'sin', 1e-6)
    rec.step()
    rec.state(sc)


# --------------------------------------------------------------- root-MUSIC
def call_root(R, k, wl, d0, unit):
    from doatools.estimation.music import RootMUSIC1D
    kw = {}
    if d0 is not None:
        kw['d0'] = d0
    if unit is not None:
        kw['unit'] = unit
    R0 = R.copy()
    ret = RootMUSIC1D(wl).estimate(R, k, **kw)
    require(len(ret) == 2, 'return value of length {}', len(ret))
    require(np.array_equal(R, R0), 'covariance modified')
    return ret


UNITS = [1.23456789e-6, 1.5e-3, 343.0, 2e5]


def gen_esprit_unit(c):
    """Wavelengths of light, ultrasound, sound and long waves."""
    m = c.choose('m', [3, 5, 6])
    disp = c.choose('displacement', [None, 2])
    k = c.choose('k', list(range(1, min(m - (disp or 1), 3) + 1)))
    wl, f = c.choose('wl', UNITS), c.choose('d0/wl', [None, 0.3])
    return m, disp, k, None if f is None else f * wl, f or 0.5, wl, c.choose('sources', sets(k)), c.choose('formulation', ['ls', 'tls']), \
        c.choose('weights', [None, 'none']), 1, 0.2, c.choose('unit', ['rad', 'deg', 'sin'])


def gen_root_unit(c):
    m = c.choose('m', [3, 5, 6])
    k = c.choose('k', list(range(1, min(m - 1, 3) + 1)))
    wl, f = c.choose('wl', UNITS), c.choose('d0/wl', [None, 0.3])
    return m, k, None if f is None else f * wl, f or 0.5, wl, c.choose('sources', sets(k)), 1, 0.1, c.choose('unit', ['rad', 'deg', 'sin']), 1e-5


def gen_root(c):
    m = c.choose('m', list(range(2, 9 if c.thorough else 7)))
    k = c.choose('k', list(range(1, min(m - 1, 4) + 1)))
    d0, f, wl = spacing(c)
    sins = c.choose('sources', sets(k))
    return m, k, d0, f, wl, sins, c.choose('power', [0, 1]), c.choose('sigma', [0.1, 1.0]), \
        c.choose('unit', [None, 'rad', 'deg', 'sin']), c.choose('noise', [0.0, 1e-5])


def run_root(sc, rec):
    m, k, d0, f, wl, sins, pw, sigma, unit, eps = sc
    R = ideal(m, f, sins, pw, sigma)
    if eps:
        R = R + eps * ref.hermitian(m, 3)
        R = 0.5 * (R + R.conj().T)
    Pn, _ = ref.noise_projector(R, k)
    A = ideal  # noqa: F841
    # spurious roots close to the unit circle make the scenario ill-posed
    z = poly_roots(Pn)
    true = [np.exp(2j * math.pi * f * s) for s in sins]
    far = [x for x in z if min(abs(x - t) for t in true) > 0.05]
    if any(abs(1 - abs(x)) < 0.05 for x in far) or len(far) != 2 * (m - 1 - k):
        raise Skip()
    ok, est = call_root(R, k, wl, d0, unit)
    require(ok, 'not resolved')
    check_doas(est, sins, unit, 1e-2)
    rec.step()
    rec.state(m, sins, d0, wl, unit, pw, sigma, eps)


def poly_roots(Pn):
    m = len(Pn)
    co = [0j] * (2 * m - 1)
    for i in range(m):
        for j in range(m):
            co[(m - 1) - (j - i)] += Pn[i, j]          # highest power first
    return np.roots(co)


def gen_root_any(c):
    m = c.choose('m', list(range(2, 9 if c.thorough else 8)))
    return m, c.choose('k', list(range(1, m))), c.choose('R', ['pd0', 'pd1', 'pd2', 'real', 'ideal+', 'indef', 'nearr3e-4', 'nearw3e-3', 'int']), c.choose('ratio', [0.5, 0.8]), \
        c.choose('unit', ['rad', 'deg', 'sin'])


def gen_root_layout(c):
    m = c.choose('m', [2, 3, 4, 5, 7])
    return m, c.choose('k', list(range(1, m))), c.choose('R', ['pd0', 'int', 'real']), 0.5, c.choose('unit', ['rad', 'deg', 'sin']), c.choose('layout', alpha.COV_LAYOUTS)


def run_root_any(sc, rec):
    m, k, r, f, unit = sc[:5]
    R = alpha.relayout(anyR(r, m), sc[5] if len(sc) > 5 else None)
    Pn, lam = ref.noise_projector(R, k)
    if lam[m - k] - lam[m - k - 1] < 1e-6:
        raise Skip()
    z = poly_roots(Pn)
    if np.any(np.abs(np.abs(z) - 1) < 1e-4):
        raise Skip()
    ins = sorted((x for x in z if abs(x) < 1), key=lambda x: 1 - abs(x))
    if len(ins) > k and abs(abs(ins[k - 1]) - abs(ins[k])) < 1e-6:
        raise Skip()
    sel = ins[:k]
    if any(abs(abs(np.angle(x)) - math.pi) < 1e-3 for x in sel):
        raise Skip()
    ok, est = call_root(R, k, 1.0, f, unit)
    require(ok and len(sel) == k, 'resolved={}', ok)
    check_doas(est, [np.angle(x) / (2 * math.pi * f) for x in sel], unit, 1e-5)
    rec.step()
    rec.state(sc)


# ------------------------------------------------- larger arrays, closer sources
LAYOUT = {
    'even': lambda k: [-0.83 + 1.66 * (i + 0.5) / k for i in range(k)],
    'uneven': lambda k: sorted(0.9 * math.sin(2.4 * i + 0.3) + 0.01 * i for i in range(k)),
    'close': lambda k: sorted([0.31, 0.31 + 0.035] + [-0.8 + 0.9 * i / max(1, k - 2) for i in range(k - 2)])[:k] if k > 1 else [0.31],
    'closer': lambda k: sorted([-0.2, -0.192] + [0.05 + 0.8 * i / max(1, k - 2) for i in range(k - 2)])[:k] if k > 1 else [-0.2],
    'edge': lambda k: sorted([-0.995, 0.99] + [-0.6 + 1.3 * i / max(1, k - 2) for i in range(k - 2)])[:k] if k > 1 else [0.997],
    'broadside': lambda k: [0.0] + [0.2 + 0.7 * i / k for i in range(k - 1)],
}


def gen_big(c):
    m = c.choose('m', [7, 8, 9, 10, 12, 16, 17, 20, 33] if c.thorough else [7, 9, 12, 20])
    disp = c.choose('displacement', [1, 2, 3, 4, m // 2, m - 2])
    k = c.choose('k', sorted({1, 2, 3, 5, 8, m - disp} & set(range(1, min(m - disp, 9) + 1))))
    lay = c.choose('layout', list(LAYOUT))
    f = c.choose('d0/wl', [0.5, 0.11, 0.02])
    form, w = c.choose('formulation', ['ls', 'tls']), c.choose('weights', [None, 'none', 'custom', 'ramp'])
    pw, sigma = c.choose('powers', ['equal', 'range']), c.choose('sigma', [0.3, 0.0])
    return m, disp, k, lay, f, form, w, pw, sigma, c.choose('unit', ['rad', 'deg', 'sin']), c.choose('scale', [1.0, 1e-8, 1e9])


def ideal2(m, f, sins, p, sigma):
    A = np.array([[np.exp(2j * math.pi * f * i * s) for s in sins] for i in range(m)])
    return (A * p) @ A.conj().T + sigma * np.eye(m), A


def run_big(sc, rec):
    m, disp, k, lay, f, form, w, pw, sigma, unit, scale = sc
    if not 1 <= disp < m or scale != 1.0 and (unit != 'sin' or form == 'tls'):
        raise Skip()
    sins = LAYOUT[lay](k)
    if max(abs(s) for s in sins) * f * disp >= 0.499 or min([9.0] + [b - a for a, b in zip(sins, sins[1:])]) * f * disp < 1e-3:
        raise Skip()
    p = np.array([1.0 if pw == 'equal' else 10.0 ** -(i % 3) for i in range(k)])
    R, A = ideal2(m, f, sins, p, sigma)
    sv = np.linalg.svd(A * np.sqrt(p), compute_uv=False) ** 2
    E1 = ref_weights(w, m - disp)[:, None] * np.linalg.qr(A)[0][:m - disp]
    amp = (sv[0] + sigma) / sv[-1] * np.linalg.cond(E1) * np.linalg.cond(A[:m - disp])
    if amp > 1e6:
        raise Skip()
    ok, est = call_esprit(scale * R, k, 1.0, f, disp, form, w, unit)
    require(ok, 'not resolved')
    check_doas(est, sins, unit, 1e-9 + 1e-13 * amp / (f * disp))
    rec.step()
    rec.state(*sc)


def gen_big_root(c):
    m = c.choose('m', [8, 9, 10, 12, 16] + ([20, 24] if c.thorough else []))
    k = c.choose('k', sorted({1, 2, 3, 5, m // 2, m - 1} & set(range(1, m))))
    return m, k, c.choose('layout', list(LAYOUT)), c.choose('d0/wl', [0.5, 0.62]), c.choose('noise', [0.05, 0.3]), c.choose('unit', ['rad', 'deg', 'sin']), c.choose('scale', [1.0, 1e-8, 1e9])


def run_big_root(sc, rec):
    m, k, lay, f, eps, unit, scale = sc
    R, A = ideal2(m, f, LAYOUT[lay](k), np.ones(k), 0.4)
    R = R + eps * ref.hermitian(m, 2)
    R = 0.5 * (R + R.conj().T)
    Pn, lam = ref.noise_projector(R, k)
    if lam[m - k] - lam[m - k - 1] < 1e-3:
        raise Skip()
    z = poly_roots(Pn)
    if np.any(np.abs(np.abs(z) - 1) < 1e-4):
        raise Skip()
    ins = sorted((x for x in z if abs(x) < 1), key=lambda x: 1 - abs(x))
    if len(ins) < k or len(ins) > k and abs(abs(ins[k - 1]) - abs(ins[k])) < 1e-5:
        raise Skip()
    sel = ins[:k]
    if any(abs(abs(np.angle(x)) - math.pi) < 1e-3 or abs(np.angle(x)) / (2 * math.pi * f) > 0.9999 for x in sel):
        raise Skip()
    if min([1.0] + [abs(a - b) for i, a in enumerate(z) for b in z[:i]]) < 1e-4:
        raise Skip()
    ok, est = call_root(scale * R, k, 1.0, f, unit)
    require(ok, 'not resolved')
    check_doas(est, [np.angle(x) / (2 * math.pi * f) for x in sel], unit, 1e-5)
    rec.step()
    rec.state(*sc)


HARNESSES = [Tree('esprit-large', gen_big, run_big), Tree('root-large', gen_big_root, run_big_root), Tree('esprit-ideal', gen_esprit, run_esprit), Tree('esprit-any', gen_esprit_any, run_esprit_any),
             Tree('root-ideal', gen_root, run_root), Tree('esprit-units', gen_esprit_unit, run_esprit), Tree('root-units', gen_root_unit, run_root), Tree('root-any', gen_root_any, run_root_any),
             Tree('esprit-weights', gen_esprit_w, run_esprit_any), Tree('root-layouts', gen_root_layout, run_root_any)]
