"""C07 coarray augmentation."""
import functools
import itertools

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Tree, require
from . import c06

ASSUMPTIONS = ['sensor positions are distinct integers times the spacing']


def cov(kind, m, seed=0):
    if kind == 'herm':
        return ref.hermitian(m, seed)
    if kind == 'pd':
        return ref.herm_pd(m, seed + 1)
    if kind == 'generic':
        return ref.generic(m, m, seed + 2)
    if kind == 'real':
        return ref.generic(m, m, seed + 3, False)
    if kind == 'int':
        return np.array([[(3 * i + 5 * j * j + seed) % 7 for j in range(m)] for i in range(m)])
    if kind == 'fortran':
        return np.asfortranarray(ref.generic(m, m, seed + 5))
    if kind == 'c64':
        return ref.hermitian(m, seed).astype(np.complex64)
    if kind == 'int8':
        return np.array([[120 - (3 * i + 5 * j * j + seed) % 7 for j in range(m)] for i in range(m)], dtype=np.int8)
    if kind == 'diag':
        return np.diag(1.0 + np.arange(m) * 0.4)
    if kind == 'zero':
        return np.zeros((m, m))
    if kind in alpha.LAYOUTS:
        return alpha.relayout(ref.generic(m, m, seed + 6), kind)
    if kind in ('huge', 'tiny'):
        return ref.herm_pd(m, seed + 1) * (1e120 if kind == 'huge' else 1e-120)
    raise KeyError(kind)


def expected(R, ind, method):
    m = len(ind)
    R = np.asarray(R).astype(complex)
    d = c06.brute(ind)
    mv = c06.central(d)
    z = {}
    for x in range(-mv + 1, mv):
        s = [R[r, c] for r in range(m) for c in range(m) if ind[r] - ind[c] == x]
        z[x] = sum(s) / len(s)
    if method == 'da':
        return np.array([[z[r - c] for c in range(mv)] for r in range(mv)], dtype=complex)
    out = np.zeros((mv, mv), dtype=complex)
    for i in range(mv):
        seg = np.array([z[i + j - mv + 1] for j in range(mv)])
        out += np.outer(seg, seg.conj())
    return out / mv


def builder(ind, d0=0.5):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    from doatools.model.arrays import GridBasedArrayDesign
    a = GridBasedArrayDesign(np.array(ind).reshape(-1, 1), d0, 'arr')
    return CoarrayACMBuilder1D(a), a


def gen(c):
    t = c.choose('sensors', c06.subsets(11 if c.thorough else 8))
    ind = c.choose('order', c06.orders(t))
    return ind, c.choose('R', ['herm', 'pd', 'generic', 'real', 'int', 'fortran', 'c64', 'int8', 'huge', 'tiny', 'diag', 'zero'] + alpha.LAYOUTS[1:])


def run(sc, rec):
    ind, kind = sc
    b, a = builder(ind)
    R = cov(kind, len(ind))
    R0 = R.copy()
    mv = c06.central(c06.brute(ind))
    require(b.input_size == len(ind) and b.output_size == mv, 'sizes {} -> {} expected {} -> {}', b.input_size, b.output_size, len(ind), mv)
    for method in ('ss', 'da', None):
        got = b(R) if method is None else b(R, method)
        got2 = b.transform(R) if method is None else b.transform(R, method)
        want = expected(R, ind, method or 'ss')
        sc_ = np.max(np.abs(want)) if kind in ('huge', 'tiny') else 1.0
        got, got2, want = got / sc_, got2 / sc_, want / sc_
        tol = 1e-5 if kind == 'c64' else 1e-10
        require(got.shape == want.shape and ref.close(got, want, tol), 'method {}:\n{}\nexpected\n{}', method, got, want)
        require(ref.close(got2, want, tol), 'transform({}) differs', method)
        rec.step(2)
        rec.state(want)
    require(np.array_equal(R, R0), 'covariance modified')


# ideal covariance -> covariance of the virtual ULA, any spacing
def gen_ideal(c):
    t = c.choose('sensors', c06.subsets(8 if c.thorough else 7))
    d0, wl = c.choose('d0, wl', [(d, w) for d in (0.5, 0.31, 1.0) for w in (1.0, 0.4)] + [(1, 2), (1, 3), (2, 5)])
    return list(t), d0, wl, c.choose('sources', [[0.2], [-0.6, 0.1, 0.7], [-1.2, -0.3, 0.25, 0.8, 1.3]]), c.choose('sigma', [0.0, 0.4])


def gen_unit(c):
    """Arrays and wavelengths in other units of length."""
    f = c.choose('unit of length', [1.23456789e-6, 1.5e-3, 343.0, 2e5])
    return list(c.choose('sensors', c06.subsets(6))), 0.5 * f, c.choose('wl', [1.0, 0.7]) * f, c.choose('sources', [[0.2], [-0.6, 0.1, 0.7]]), 0.4


def run_ideal(sc, rec):
    ind, d0, wl, th, sigma = sc
    b, a = builder(ind, d0)
    p = [1.0 + 0.5 * i for i in range(len(th))]
    A = ref.steering([[i * d0] for i in ind], 'ff1d', th, 'rad', wl)[0]
    R = A @ np.diag(p) @ A.conj().T + sigma * np.eye(len(ind))
    v = b.get_virtual_ula()
    mv = c06.central(c06.brute(ind))
    require(v.size == mv, 'virtual array has {} elements, expected {}', v.size, mv)
    require(ref.close(v.element_locations.ravel() / d0, np.arange(mv), 1e-12), 'virtual locations {}', v.element_locations.ravel())
    require(isinstance(v.name, str) and b.get_virtual_ula('abc').name == 'abc', 'virtual array name')
    require(not v.is_perturbed, 'virtual array perturbed')
    B = ref.steering([[i * d0] for i in range(mv)], 'ff1d', th, 'rad', wl)[0]
    want = B @ np.diag(p) @ B.conj().T + sigma * np.eye(mv)
    got = b.transform(R, 'da')
    require(ref.close(got, want, 1e-9), 'augmented covariance\n{}\nexpected\n{}', got, want)
    got = b.transform(R, 'ss')
    # R_ss = R_da^2 / m_v for ideal covariance matrices
    require(ref.close(got, want @ want / mv, 1e-9), 'spatially smoothed\n{}\nexpected\n{}', got, want @ want / mv)
    rec.step(4)
    rec.state(ind, d0, wl, th, sigma)


def gen_des(c):
    return c.choose('design', c06.designs(c.thorough)), c.choose('R', ['herm', 'generic'])


def run_des(sc, rec):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    sp, kind = sc
    b = CoarrayACMBuilder1D(sp.make())
    ind = [i[0] for i in sp.grid['indices']]
    R = cov(kind, sp.size)
    for method in ('da', 'ss'):
        want = expected(R, ind, method)
        require(ref.close(b.transform(R, method), want, 1e-10), '{} of {} wrong', method, sp)
        rec.step()
    v = b.get_virtual_ula()
    require(v.size == c06.central(c06.brute(ind)) and ref.close(float(np.ravel(v.d0)[0]), sp.grid['d0'][0], 1e-12), 'virtual array {} {}', v.size, v.d0)
    rec.state(sp.name, kind)


# types of the indices, orientations and descriptions of the spacing
def gen_types(c):
    return c.choose('sensors', c06.TYPED), c.choose('type', c06.TYPES), c.choose('spacing', c06.SPACINGS), c.choose('sources', [[0.2], [-0.6, 0.1, 0.7]])


def run_types(sc, rec):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    ind, kind, spacing, th = sc
    b = CoarrayACMBuilder1D(c06.grid_array(ind, kind, spacing))
    d0 = float(np.ravel(spacing)[0])
    p = [1.0 + 0.5 * i for i in range(len(th))]
    A = ref.steering([[i * d0] for i in ind], 'ff1d', th, 'rad', 1.0)[0]
    R = A @ np.diag(p) @ A.conj().T + 0.3 * np.eye(len(ind))
    for method in ('da', 'ss'):
        require(ref.close(b.transform(R, method), expected(R, ind, method), 1e-10), '{} wrong', method)
        rec.step()
    v = b.get_virtual_ula()
    mv = c06.central(c06.brute(ind))
    require(v.size == mv and ref.close(v.element_locations.ravel(), np.arange(mv) * d0, 1e-12), 'virtual locations {}', v.element_locations.ravel())
    spl = alpha.SourceSpec('ff1d', th, 'rad').make()
    B = v.steering_matrix(spl, 1.0)
    want = B @ np.diag(p) @ B.conj().T + 0.3 * np.eye(mv)
    require(ref.close(b.transform(R, 'da'), want, 1e-9), 'augmented covariance\n{}\nof the virtual array\n{}', b.transform(R, 'da'), want)
    rec.step(3)
    rec.state(*sc)


OPS = [('ss', 'herm', 0), ('da', 'herm', 1), ('ss', 'real', 0), ('da', 'int', 1), ('ula',), ('bad',), ('badshape',), ('buf', 'da'), ('buf', 'ss'), ('overwrite',)]


def make_graph(ind):
    def run(hist, rec):
        b, a = builder(ind)
        version = 0
        buf = cov('herm', len(ind), 0)
        for e in hist:
            if e[0] == 'overwrite':
                version += 1
                buf[...] = cov('herm', len(ind), version)
            elif e[0] == 'buf':
                require(ref.close(b.transform(buf, e[1]), expected(cov('herm', len(ind), version), ind, e[1]), 1e-10), '{} after {}', e, hist)
            elif e[0] == 'ula':
                v = b.get_virtual_ula()
                x = v.element_locations
                x += 1
                require(v.size == c06.central(c06.brute(ind)), 'virtual size changed')
            elif e[0] in ('bad', 'badshape'):
                try:
                    b.transform(cov('herm', len(ind) + (e[0] == 'badshape')), 'xx' if e[0] == 'bad' else 'da')
                    ok = True
                except ValueError:
                    ok = False
                require(not ok, 'invalid request accepted')
            else:
                R = cov(e[1], len(ind), e[2])
                R0 = R.copy()
                got = b.transform(R, e[0])
                require(ref.close(got, expected(R0, ind, e[0]), 1e-10), '{} after {}', e, hist)
                require(np.array_equal(R, R0), 'input modified')
                got *= 0
            rec.step()
        return list(hist), OPS
    return run


HARNESSES = [Tree('types', gen_types, run_types), Tree('subsets', gen, run), Tree('ideal', gen_ideal, run_ideal), Tree('designs', gen_des, run_des), Tree('units of length', gen_unit, run_ideal)] + \
    [Graph('calls-%d' % i, make_graph(g), {'quick': 4, 'thorough': 6}) for i, g in enumerate([[0, 1, 4, 6], [5, 0, 2]])]
