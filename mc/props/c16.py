"""C16 source number detection."""
import itertools
import math
from decimal import Decimal, getcontext
from fractions import Fraction

import numpy as np

from .. import alpha, ref
from ..engine import Skip, Tree, require

getcontext().prec = 60
ASSUMPTIONS = ['profiles whose two best criterion values agree to 1e-9 are ties and left open',
               'SORTE: gap variances between exact zero and 1e-12 of the squared eigenvalue are numerically zero and left open',
               'eigenvalues are positive (the criteria are undefined otherwise) with a dynamic range up to 1e6']
SCALES = [1.0, 1e-150, 1e-60, 1e-9, 3.7, 1e9, 1e80, 1e150]


def fn(name):
    from doatools.estimation import source_number
    return getattr(source_number, name)


def ic_table(name, lam, n):
    """Criterion for every source number, Van Trees; lam are Decimals, ascending."""
    m = len(lam)
    out = []
    for k in range(m):
        t = lam[:m - k]
        q = len(t)
        am = sum(t) / q
        lg = sum(v.ln() for v in t) / q
        ld = n * q * (am.ln() - lg)
        if name == 'aic':
            pen = Decimal(k * (2 * m - k))
        else:
            pen = (Decimal(k * (2 * m - k)) + 1) / 2 * Decimal(n).ln()
        out.append(ld + pen)
    return out


def sorte_table(lam):
    """He et al.: ratios of the variances of the trailing eigenvalue gaps."""
    lam = [Fraction(v) for v in lam][::-1]
    m = len(lam)
    gaps = [lam[i] - lam[i + 1] for i in range(m - 1)]

    def var(k):
        t = gaps[k:]
        mu = sum(t) / len(t)
        return sum((v - mu) ** 2 for v in t) / len(t)
    out = []
    for k in range(m - 3):
        v = var(k)
        if 0 < v < Fraction(1, 10 ** 12) * lam[k] ** 2:
            raise Skip()
        out.append(math.inf if v == 0 else float(var(k + 1) / v))
    return out


def expected(name, lam, n):
    if name == 'sorte':
        t = sorte_table(lam)
        if all(v == math.inf for v in t):
            raise Skip()
        o = sorted(range(len(t)), key=lambda i: (t[i], i))
        if len(o) > 1 and t[o[1]] != math.inf and t[o[1]] - t[o[0]] <= 1e-7 * (1 + abs(t[o[0]])):
            raise Skip()
        return o[0] + 1
    t = ic_table(name, [Decimal(v) for v in lam], n)
    o = sorted(range(len(t)), key=lambda i: t[i])
    if len(o) > 1 and t[o[1]] - t[o[0]] <= Decimal(1e-9) * (1 + abs(t[o[0]])):
        raise Skip()
    return o[0]


def unitary(m, cplx):
    Q, _ = np.linalg.qr(ref.generic(m, m, 4, cplx) + 0.5 * np.eye(m))
    return Q


def forms(lam, how):
    if '@' in how:
        return alpha.relayout(forms(lam, how.split('@')[0]), how.split('@')[1])
    lam = np.array(lam, dtype=float)
    m = len(lam)
    if how in ('int64', 'int16', 'uint8', 'int8', 'int-diag'):       # VALS are multiples of 1/4
        lam = (4 * lam).astype('int64' if how == 'int-diag' else how)
        return np.diag(lam) if how == 'int-diag' else lam
    if how == 'values':
        return lam
    if how == 'view':
        return np.repeat(lam, 2)[::2]
    if how == 'readonly':
        lam.setflags(write=False)
        return lam
    if how == 'diag':
        return np.diag(np.roll(lam, 1))
    U = unitary(m, how == 'complex')
    R = (U * lam) @ U.conj().T
    return 0.5 * (R + R.conj().T)


TYPED = ('int64', 'int16', 'uint8', 'int8', 'int-diag', 'values@reversed', 'values@offset') + tuple('complex@' + x for x in alpha.COV_LAYOUTS)


def call(name, x, n):
    x0 = np.array(x, copy=True)
    out = fn(name)(x) if name == 'sorte' else fn(name)(x, n)
    require(np.array_equal(x, x0), 'input modified')
    require(np.ndim(out) == 0 and int(out) == out, 'answer {!r} is not an integer', out)
    return int(out)


VALS = [1.0, 1.25, 2.0, 5.0, 40.0]


def profiles(c, n_max, vals, n_min=1):
    m = c.choose('m', list(range(n_min, n_max + 1)))
    lo, out = 0, []
    for i in range(m):
        j = c.choose('lam', list(range(lo, len(vals))))
        out.append(vals[j])
        lo = j
    return out


def gen_prof(name):
    def gen(c):
        lam = profiles(c, 8 if c.thorough else 6, VALS, 4 if name == 'sorte' else 1)
        n = c.choose('n', [10, 2, 100, 5000] if c.thorough else [10, 2, 1000]) if name != 'sorte' else None
        return name, lam, n
    return gen


def run_prof(sc, rec):
    name, lam, n = sc
    want = expected(name, lam, n)
    for s in SCALES:
        got = call(name, np.array(lam) * s, n)
        rec.step()
        require(got == want, '{} of {} times {:g} (N={}): {} expected {}', name, lam, s, n, got, want)
    for how in ('diag', 'real', 'complex', 'view', 'readonly') + TYPED:
        if 'int' in how and (any(4 * v != int(4 * v) for v in lam) or max(lam) > (31 if how == 'int8' else 63)):
            continue
        got = call(name, forms(lam, how), n)
        rec.step()
        require(got == want, '{} of {} given as {} (N={}): {} expected {}', name, lam, how, n, got, want)
    rec.count('answer %s' % got)
    rec.state(*sc)


# wide and irregular profiles
WIDE = [1e-3, 0.11, 0.5, 1.0, 7.0, 90.0, 1000.0]


def gen_wide(c):
    name = c.choose('criterion', ['aic', 'mdl', 'sorte'])
    m = c.choose('m', [5, 4, 6] + ([7] if c.thorough else []))
    idx = c.choose('profile', list(itertools.combinations(range(len(WIDE)), m)) if m <= len(WIDE) else [])
    lam = [WIDE[i] for i in idx]
    jit = c.choose('jitter', [0.0, 0.1, 0.3])
    lam = sorted(v * (1 + jit * math.sin(3 * i + 1)) for i, v in enumerate(lam))
    n = c.choose('n', [1, 3, 30, 10 ** 6]) if name != 'sorte' else None
    return name, lam, n


# model-based: exact profiles of few sources in white noise
def gen_model(c):
    m = c.choose('m', [5, 8, 12] + ([20] if c.thorough else []))
    k = c.choose('k', list(range(0, m - 3)))
    snr = c.choose('power', [10.0, 1.0, 300.0])
    return m, k, snr, c.choose('n', [20, 500, 10 ** 5]), c.choose('name', ['aic', 'mdl', 'sorte'])


def run_model(sc, rec):
    m, k, snr, n, name = sc
    lam = [1.0] * (m - k) + [1.0 + snr * (1 + 0.37 * i) for i in range(k)]
    want = expected(name, lam, n)
    for s in SCALES:
        got = call(name, np.array(lam) * s, n)
        rec.step()
        require(got == want, '{} of {} sources of power {} (m={}, N={}, scale {:g}): {} expected {}', name, k, snr, m, n, s, got, want)
    for how in ('real', 'complex'):
        if name == 'sorte':
            break                    # rounding noise decides among exact ties
        got = call(name, forms(lam, how), n)
        require(got == want, '{} of {} sources given as {} covariance: {} expected {}', name, k, how, got, want)
    rec.state(*sc)


# SORTE over gaps of very different magnitude, eigenvalues given exactly
GAPS = [1e-8, 3e-5, 0.7, 2e4, 3e8]


def gen_dyn(c):
    m = c.choose('m', [5, 4] + ([6, 7] if c.thorough else [6]))
    g = [c.choose('gap', GAPS) for _ in range(m - 1)]
    return g, c.choose('smallest', [0.1, 1e-3]), c.choose('jitter', [0.0, 0.2])


def run_dyn(sc, rec):
    g, lo, jit = sc
    lam = [lo]
    for i, v in enumerate(g):
        lam.append(lam[-1] + v * (1 + jit * math.sin(2 * i + 1)))
    lam = [float(v) for v in lam]
    ex = [Fraction(v) for v in lam][::-1]
    gaps = [a - b for a, b in zip(ex, ex[1:])]

    def var(k):
        t = gaps[k:]
        mu = sum(t) / len(t)
        return sum((v - mu) ** 2 for v in t) / len(t)
    vs = [var(k) for k in range(len(gaps) - 1)]
    for k, v in enumerate(vs):
        # decided by rounding, or by the floor below which a gap variance counts as zero
        if v < Fraction(1, 10 ** 12) * ex[k] ** 2 or v < Fraction(1, 10 ** 8) * max(gaps[k:]) ** 2:
            if k < len(vs) - 1:
                raise Skip()
            if v:
                raise Skip()
    t = [vs[k + 1] / vs[k] for k in range(len(vs) - 1)]
    o = sorted(range(len(t)), key=lambda i: (t[i], i))
    if len(o) > 1 and t[o[1]] <= t[o[0]] * (1 + Fraction(1, 10 ** 5)):
        raise Skip()
    want = o[0] + 1
    for s in (0, 300, -300, 7, -31):
        x = np.array(lam) * 2.0 ** s
        for how in ('values', 'view'):
            y = x if how == 'values' else np.repeat(x, 2)[::2]
            got = call('sorte', y, None)
            rec.step()
            require(got == want, 'SORTE of {} times 2**{}: {} expected {}', lam, s, got, want)
    rec.state(lam)


# many sensors, every source number, coloured noise, any number of snapshots
def gen_large(c):
    name = c.choose('criterion', ['aic', 'mdl', 'sorte'])
    m = c.choose('m', [9, 16, 17, 33, 64] + ([12, 24, 48, 100] if c.thorough else []))
    k = c.choose('k', [q for q in range(m - 3) if m <= 17 or c.thorough or q in (0, 1, 2, 5, 11, m // 3, m // 2, m - 9, m - 5, m - 4)])
    noise = c.choose('noise', [0.0, 0.05, 0.6])
    return name, m, k, noise, c.choose('n', [1, 3, 40, 999, 10 ** 7]) if name != 'sorte' else None


def run_large(sc, rec):
    name, m, k, noise, n = sc
    lam = sorted(1.0 + noise * abs(math.sin(1.7 * i + 0.3)) for i in range(m - k))
    lam += [4.0 + 0.9 * i + 0.05 * i * i for i in range(k)]
    want = expected(name, lam, n)
    for s in (1.0, 1e-150, 1e-60, 1e-12, 1e12, 1e80, 1e150):
        got = call(name, np.array(lam) * s, n)
        rec.step()
        require(got == want, '{} of {} eigenvalues, {} of them large, noise spread {} (N={}, scale {:g}): {} expected {}', name, m, k, noise, n, s, got, want)
    if name != 'sorte' or noise:
        # rounding of the eigenvalues must not decide
        lo, hi = ([v * (1 + 1e-9 * math.sin(5 * i + q)) for i, v in enumerate(lam)] for q in (1, 4))
        if expected(name, sorted(lo), n) == want == expected(name, sorted(hi), n):
            for how in ('real', 'complex', 'diag'):
                got = call(name, forms(lam, how), n)
                rec.step()
                require(got == want, '{} of {} sources given as {} covariance of {} sensors: {} expected {}', name, k, how, m, got, want)
    rec.state(*sc)


def gen_small(c):
    return c.choose('m', [3, 2, 1, 0]), c.choose('how', ['values', 'diag', 'complex'])


def run_small(sc, rec):
    m, how = sc
    if m == 0 and how != 'values':
        raise Skip()
    x = forms([1.0 + i for i in range(m)], how)
    rec.step()
    try:
        fn('sorte')(x)
    except ValueError:
        rec.state(*sc)
        return
    require(False, 'SORTE accepted {} eigenvalues', m)


HARNESSES = [Tree('aic', gen_prof('aic'), run_prof), Tree('mdl', gen_prof('mdl'), run_prof), Tree('sorte', gen_prof('sorte'), run_prof),
             Tree('wide', gen_wide, run_prof), Tree('model', gen_model, run_model), Tree('dynamic range', gen_dyn, run_dyn), Tree('large', gen_large, run_large),
             Tree('too-few', gen_small, run_small)]
