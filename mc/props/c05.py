"""C05 source placements."""
import cmath
import functools
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Skip, Tree, Violation, require

ASSUMPTIONS = ['locations are finite numbers']
HALF = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}


def S():
    from doatools.model import sources
    return sources


def mk(kind, locs, unit, as_list=False):
    x = [list(v) if isinstance(v, (list, tuple)) else v for v in locs] if as_list else np.array(locs)
    if kind == 'ff1d':
        return S().FarField1DSourcePlacement(x, unit)
    if kind == 'ff2d':
        return S().FarField2DSourcePlacement(x, unit)
    return S().NearField2DSourcePlacement(x)


def ranges(kind, unit):
    h = HALF.get(unit)
    return {'ff1d': lambda: [(-h, h)], 'ff2d': lambda: [(-2 * h, 2 * h), (-h, h)],
            'nf2d': lambda: [(-math.inf, math.inf)] * 2}[kind]()


def values(lo, hi):
    if math.isinf(lo):
        return [(-1e6, True), (-3.5, True), (0.0, True), (2, True), (1e6, True)]
    return [(lo, True), (hi, True), (np.nextafter(lo, 0), True), (np.nextafter(hi, 0), True), (0.0, True), (hi / 3, True),
            (np.nextafter(lo, -np.inf), False), (np.nextafter(hi, np.inf), False), (lo * 1.5, False), (hi + 1, False), (-1e9, False)]


KINDS = [('ff1d', u) for u in ('rad', 'deg', 'sin')] + [('ff2d', u) for u in ('rad', 'deg')] + [('nf2d', 'm')]


# ------------------------------------------------------------- construction
def gen_cons(c):
    kind, unit = c.choose('kind', KINDS)
    r = ranges(kind, unit)
    k = c.choose('k', [1, 2, 3] if c.thorough or kind == 'ff1d' else [1, 2])
    vals = []
    for i in range(k):
        if kind == 'ff1d':
            vals.append([c.choose('v', values(*r[0]))])
        else:
            short = i > 0 and not c.thorough
            vs = [values(*x) for x in r]
            if short:
                vs = [v[:1] + v[4:7] for v in vs]
            vals.append([c.choose('v', v) for v in vs])
    return kind, unit, vals, c.choose('container', ['array', 'list'])


def run_cons(sc, rec):
    kind, unit, vals, how = sc
    ok = all(o for v in vals for _, o in v)
    locs = [float(v[0][0]) if kind == 'ff1d' else [float(x) for x, _ in v] for v in vals]
    try:
        s = mk(kind, locs, unit, how == 'list')
    except ValueError:
        require(not ok, 'valid locations {} rejected', locs)
        rec.step()
        rec.state(kind, unit, 'rejected')
        return
    require(ok, 'out-of-range locations {} ({}) accepted', locs, unit)
    require(len(s) == len(locs) and s.size == len(locs), 'size {}', s.size)
    require(np.array_equal(s.locations, np.array(locs)), 'locations {}', s.locations)
    require(tuple(s.units) == ((unit,) if kind == 'ff1d' else (unit, unit)), 'units {}', s.units)
    vr = s.valid_ranges
    require(len(vr) == len(ranges(kind, unit)) and all(tuple(a) == b for a, b in zip(vr, ranges(kind, unit))), 'valid ranges {}', vr)
    require(s.is_far_field == (kind != 'nf2d'), 'is_far_field {}', s.is_far_field)
    rec.step(4)
    rec.state(kind, unit, locs)


# ----------------------------------------------------------------- indexing
def index_exprs(n, thorough):
    out = [('int', i) for i in range(-n, n)] + [('npint', i) for i in range(-n, n)]
    rng = [None] + list(range(-n - 1, n + 2))
    for a in rng:
        for b in rng:
            for st in (None, 1, -1, 2, -2) if thorough else (None, -1, 2):
                out.append(('slice', (a, b, st)))
    L = 3 if thorough else 2
    for ln in range(0, L + 1):
        for t in itertools.product(range(-n, n), repeat=ln):
            if ln:
                out.append(('list', t))
            out.append(('array', t))
    for m in itertools.product([False, True], repeat=n):
        out.append(('mask', m))
        out.append(('masklist', m))
    return out


@functools.lru_cache(None)
def _ix(n, th):
    return index_exprs(n, th)


LOCS = {('ff1d', 'rad'): [0.3, -0.2, 1.1, -1.4], ('ff1d', 'deg'): [30, -20, 88, -60.5], ('ff1d', 'sin'): [0.3, -0.2, 0.9, -1.0],
        ('ff2d', 'rad'): [[0.3, 0.1], [-2.9, 0.7], [1.5, -0.4], [0.0, 1.5]],
        ('ff2d', 'deg'): [[30, 10.5], [-170, 70], [85, -40], [0, 90]],
        ('nf2d', 'm'): [[1.0, 2.0], [-3.5, 0.5], [4.0, -4.0], [0.1, 9.0]]}


def gen_idx(c):
    kind, unit = c.choose('kind', KINDS)
    n = c.choose('n', [1, 2, 3, 4] if c.thorough else [1, 3])
    return kind, unit, n, c.choose('index', _ix(n, c.thorough))


def run_idx(sc, rec):
    kind, unit, n, (how, v) = sc
    locs = [x if kind == 'ff1d' else list(x) for x in LOCS[kind, unit][:n]]
    s = mk(kind, locs, unit)
    before = np.array(s.locations, copy=True)
    if how in ('int', 'npint'):
        got = s[v if how == 'int' else np.int64(v)]
        require(np.array_equal(np.asarray(got, float), np.asarray(locs[v], float)), 'index {}: {}', v, got)
        rec.step()
        rec.state(kind, unit, n, how, v)
        return
    if how == 'slice':
        key, want = slice(*v), locs[slice(*v)]
    elif how == 'list':
        key, want = list(v), [locs[i] for i in v]
    elif how == 'array':
        key, want = np.array(v, dtype=int), [locs[i] for i in v]
    else:
        key, want = (np.array(v) if how == 'mask' else list(v)), [x for x, m in zip(locs, v) if m]
    t = s[key]
    require(type(t) is type(s) and t.units == s.units, 'kind or unit lost')
    require(t.size == len(want), '{} sources, expected {}', t.size, len(want))
    require(t.locations.shape == (len(want),) + before.shape[1:] and
            np.array_equal(t.locations, np.array(want, float).reshape(t.locations.shape)), 'sources {} expected {}', t.locations, want)
    require(t.valid_ranges == s.valid_ranges and t.is_far_field == s.is_far_field, 'ranges lost')
    # the derived placement is independent
    if t.size:
        t.locations[0] = t.locations[0] * 0.5 + 0.01
        require(np.array_equal(s.locations, before), 'modifying the derived placement changed the original')
        t2 = s[key]
        s.locations[:] = s.locations * 0.25
        require(np.array_equal(t2.locations, np.array(want, float).reshape(t2.locations.shape)), 'modifying the original changed the derived placement')
    rec.step(2)
    rec.state(kind, unit, n, how, want)


# --------------------------------------------------------- op-chain history
ALPH = {'ff1d': ['rad', 'deg', 'sin'], 'ff2d': ['rad', 'deg'], 'nf2d': ['m']}


def make_graph(kind, unit):
    def run(hist, rec):
        locs = LOCS[kind, unit]
        # model: list of (unit, [radian/metre locations])
        def phys(l, u):
            if kind == 'nf2d':
                return [float(x) for x in l]
            return ref.to_rad(l, u) if kind == 'ff1d' else [ref.to_rad(x, u) for x in l]
        live = [mk(kind, locs, unit)]
        model = [[unit, [phys(l, unit) for l in locs]]]
        prov = []       # equal placements derived in different ways may share memory differently
        for e in hist:
            i = e[1]
            if e[0] != 'halve':
                prov.append(e)
            if e[0] == 'unit':
                live.append(live[i].as_unit(e[2]))
                model.append([e[2], list(model[i][1])])
            elif e[0] == 'slice':
                live.append(live[i][slice(*e[2])])
                model.append([model[i][0], model[i][1][slice(*e[2])]])
            elif e[0] == 'take':
                live.append(live[i][np.array(e[2])])
                model.append([model[i][0], [model[i][1][j] for j in e[2]]])
            elif e[0] == 'halve':
                if kind == 'ff1d' and model[i][0] == 'sin':
                    live[i].locations[0] *= 0.5
                    model[i][1] = [math.asin(math.sin(model[i][1][0]) * 0.5)] + model[i][1][1:]
                else:
                    live[i].locations[0] *= 0.5
                    v = model[i][1][0]
                    model[i][1] = [v * 0.5 if kind == 'ff1d' else [x * 0.5 for x in v]] + model[i][1][1:]
            rec.step()
            for n, (s, (u, ph)) in enumerate(zip(live, model)):
                require(s.units == ((u,) if kind == 'ff1d' else (u, u)), 'placement {}: unit {}', n, s.units)
                if kind == 'ff1d':
                    want = [ref.from_rad(x, u) for x in ph]
                elif kind == 'ff2d':
                    want = [[ref.from_rad(x, u) for x in p] for p in ph]
                else:
                    want = ph
                require(s.size == len(ph) and ref.close(s.locations, np.array(want), 1e-9),
                        'placement {} after {}: {} expected {}', n, e, s.locations, want)
                tgt = S().FarField1DSourcePlacement if kind == 'ff1d' else \
                    S().FarField2DSourcePlacement if kind == 'ff2d' else S().NearField2DSourcePlacement
                require(type(s) is tgt, 'kind {}', type(s))
        ev = []
        for i in range(len(live)):
            n = len(model[i][1])
            if len(live) < 4:
                for u in ALPH[kind]:
                    ev.append(('unit', i, u))
                if n > 1:
                    ev += [('slice', i, (None, None, -1)), ('slice', i, (1, None, None)), ('take', i, (n - 1, 0))]
                ev.append(('slice', i, (None, None, None)))
            ev.append(('halve', i))
        return [model, prov], ev
    return run


# --------------------------------------- spherical coordinates, phase delays
@functools.lru_cache(None)
def _specs(th):
    from . import c02
    return c02.sources(th)


REFS = {1: [[0.0], [0.7], [-1.2]], 2: [[0.0, 0.0], [0.5, -0.4], [-1.0, 2.0]],
        3: [[0.0, 0.0, 0.0], [0.5, -0.4, 0.8], [-1.0, 0.3, -0.6], [0.1, 0.2, 0.0]]}


def gen_sph(c):
    return c.choose('sources', _specs(c.thorough)), c.choose('dim', [1, 2, 3]), c.choose('n', [1, 2, 3, 4]), \
        c.choose('offset', OFFSETS if c.thorough else OFFSETS[:3])


# the reference locations may lie entirely to one side of the coordinate planes
OFFSETS = [(0.0, 0.0, 0.0), (0.0, 0.0, 1.7), (3.1, -2.6, -2.2), (-2.5, 4.0, 0.9), (0.0, 0.0, 40.0), (-60.0, 25.0, -10.0)]


def run_sph(sc, rec):
    src, d, n, off = sc
    s = src.make()
    R = np.array(REFS[d][:n], dtype=float) + np.array(off[:d])
    R0 = R.copy()
    r, az, el = s.calc_spherical_coords(R)
    require(r.shape == az.shape == el.shape == (len(R), src.size), 'shapes {} {} {}', r.shape, az.shape, el.shape)
    for i in range(len(R)):
        for k in range(src.size):
            wr, wa, we = ref.spherical(src.kind, src.locs[k], src.unit, ref.pad3(R[i]))
            require(r[i, k] == wr or abs(r[i, k] - wr) < 1e-9, 'range {} expected {}', r[i, k], wr)
            require(abs(cmath.exp(1j * az[i, k]) - cmath.exp(1j * wa)) < 1e-9, 'azimuth {} expected {}', az[i, k], wa)
            require(abs(el[i, k] - we) < 1e-9, 'elevation {} expected {}', el[i, k], we)
            rec.step()
    for wl in (1.0, 0.37, 3.0):
        D = s.phase_delay_matrix(R, wl)
        W = np.array([[ref.phase(src.kind, src.locs[k], src.unit, ref.pad3(R[i]), ref.pad3(R[0]), wl)
                       for k in range(src.size)] for i in range(len(R))])
        require(D.shape == W.shape and ref.close(D, W, 1e-9), 'phase delays\n{}\nexpected\n{}', D, W)
        rec.step()
    require(np.array_equal(R, R0), 'reference locations modified')
    rec.state(repr(src), d, n, off)


# --------------------------------------------------------------- complex roots
def gen_z(c):
    n = c.choose('k', [1, 2, 3, 4] if c.thorough else [1, 2, 3])
    sins = [c.choose('sin', [-0.95, -0.4, 0.0, 0.3, 0.85]) for _ in range(n)]
    if n <= 2:
        edge = c.choose('edge', [None, (1 - 1e-12,), (-1 + 1e-12,), (1 - 1e-9,), (-1 + 1e-9, 1 - 1e-8), (0.999999, 0.9999999), (1e-9, -1e-9)])
        if edge is not None:
            sins = list(edge) + sins[:1]
    return sins, c.choose('d0/wl', [0.5, 0.25, 0.4]), c.choose('wl', [1.0, 0.3]), c.choose('radius', [1.0, 0.7, 1.3]), \
        c.choose('unit', ['rad', 'deg', 'sin', None])


def run_z(sc, rec):
    sins, f, wl, rad, unit = sc
    d0 = f * wl
    z = np.array([rad * cmath.exp(2j * math.pi * f * s) for s in sins])
    z0 = z.copy()
    F = S().FarField1DSourcePlacement
    p = F.from_z(z, wl, d0) if unit is None else F.from_z(z, wl, d0, unit)
    u = unit or 'rad'
    want = sorted(ref.from_rad(math.asin(s), u) for s in sins)
    require(type(p) is F and p.units == (u,), 'unit {}', p.units)
    # near endfire the angle amplifies the rounding of the root's phase
    tol = np.array([1e-9 if u == 'sin' else 1e-9 + (1e-15 * 100 / max(math.sqrt(max(1 - s * s, 0)), 1e-8)) * (180 / math.pi if u == 'deg' else 1) for s in sorted(sins)])
    require(p.locations.shape == tol.shape and np.all(np.abs(p.locations - np.array(want)) <= tol), 'from_z: {} expected {}', p.locations, want)
    require(np.array_equal(z, z0), 'roots modified')
    rec.step()
    rec.state(want, u)


# --------------------------------------------------------- large placements
def gen_many(c):
    kind, unit = c.choose('kind', KINDS)
    n = c.choose('n', [7, 8, 9, 16, 17, 33, 64, 65, 100, 129, 200, 361])
    return kind, unit, n, c.choose('what', ['reject', 'reject-later', 'slice', 'take', 'mask', 'reverse', 'negative', 'convert', 'locate', 'delays'])


def run_many(sc, rec):
    kind, unit, n, what = sc
    locs = alpha.many_sources(kind, unit, n)
    L0 = np.array(locs, dtype=float)
    if what.startswith('reject'):
        for i in range(0, n, max(1, n // 12)) if what == 'reject' else (1, n // 2, n - 2, n - 1):
            for d, (lo, hi) in enumerate(ranges(kind, unit)):
                if math.isinf(lo):
                    continue
                for bad in (np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf), lo, hi):
                    x = L0.copy()
                    x[(i,) if kind == 'ff1d' else (i, d)] = bad
                    try:
                        s = mk(kind, x, unit)
                    except ValueError:
                        require(not lo <= bad <= hi, 'valid location {} at index {} of {} rejected', bad, i, n)
                    else:
                        require(lo <= bad <= hi, 'location {} at index {} of {} accepted', bad, i, n)
                        require(np.array_equal(s.locations, x), 'locations differ')
                    rec.step()
        rec.state(*sc)
        return
    s = mk(kind, L0.copy(), unit)
    require(s.size == n and len(s) == n and np.array_equal(s.locations, L0), 'locations of a placement of {} sources', n)
    if what in ('slice', 'take', 'mask', 'reverse', 'negative'):
        ix = {'slice': [slice(1, None), slice(None, -1), slice(None, None, 3), slice(n // 2, None), slice(-3, None), slice(None, 1)], 'reverse': [slice(None, None, -1), slice(None, None, -2), slice(n - 2, 2, -3)],
              'take': [np.arange(n)[::-1], np.array([n - 1, 0, n - 1, n // 2]), list(range(0, n, 2)), np.arange(n), np.array([n // 2])],
              'mask': [np.arange(n) % 3 == 0, (np.arange(n) % 2 == 1).tolist(), np.ones(n, dtype=bool), np.arange(n) == n - 1], 'negative': [np.arange(-n, 0), np.array([-1, -n]), [-2, 1]]}[what]
        for key in ix:
            t = s[key]
            require(type(t) is type(s) and t.units == s.units and np.array_equal(t.locations, L0[np.asarray(key) if not isinstance(key, slice) else key]), 'index {}: {}', key, t.locations)
            rec.step()
    elif what == 'convert':
        for u in ALPH[kind]:
            t = s.as_unit(u)
            want = L0 if kind == 'nf2d' else np.array([ref.from_rad(ref.to_rad(v, unit), u) for v in L0.ravel()]).reshape(L0.shape)
            require(type(t) is type(s) and t.units == (u,) * len(s.units) and ref.close(t.locations, want, 1e-9), 'conversion of {} sources to {}', n, u)
            b = t.as_unit(unit)
            require(ref.close(b.locations, L0, 1e-9), 'converting back')
            rec.step()
    else:
        for d, m in ((1, 12), (2, 9), (3, 33)) if n <= 100 else ((2, 5),):
            R = ref.generic(m, d, 3, False)
            if what == 'locate':
                r, az, el = s.calc_spherical_coords(R)
                W = [[ref.spherical(kind, locs[k], unit, ref.pad3(R[i])) for k in range(n)] for i in range(m)]
                W = np.array(W)
                require(r.shape == (m, n) and ref.close(r, W[..., 0], 1e-9) and ref.close(el, W[..., 2], 1e-9) and ref.close(np.exp(1j * az), np.exp(1j * W[..., 1]), 1e-9), 'spherical coordinates of {} sources at {} points', n, m)
            else:
                D = s.phase_delay_matrix(R, 0.7)
                W = np.array([[ref.phase(kind, locs[k], unit, ref.pad3(R[i]), ref.pad3(R[0]), 0.7) for k in range(n)] for i in range(m)])
                require(D.shape == W.shape and ref.close(D, W, 1e-9), 'phase delays of {} sources at {} sensors', n, m)
            rec.step()
    require(np.array_equal(s.locations, L0), 'locations modified')
    rec.state(*sc)


def gen_zmany(c):
    return c.choose('k', [5, 8, 9, 12, 17, 33]), c.choose('order', ['asc', 'desc', 'mixed']), c.choose('unit', ['rad', 'deg', 'sin']), c.choose('d0', [0.5, 0.2])


def run_zmany(sc, rec):
    k, order, u, d0 = sc
    v = [-0.97 + 1.94 * i / (k - 1) for i in range(k)]
    x = {'asc': v, 'desc': v[::-1], 'mixed': [v[(7 * i) % k] for i in range(k)] if k % 7 else v}[order]
    z = np.array([(0.9 + 0.01 * i) * cmath.exp(2j * math.pi * d0 * s) for i, s in enumerate(x)])
    F = S().FarField1DSourcePlacement
    p = F.from_z(z, 1.0, d0, u)
    require(p.units == (u,) and ref.close(p.locations, np.array([ref.from_rad(math.asin(s), u) for s in v]), 1e-9), 'from_z of {} roots: {}', k, p.locations)
    rec.step()
    rec.state(*sc)


# ------------------------------------------------------------ number types
def gen_dt(c):
    kind, unit = c.choose('kind', KINDS)
    return kind, unit, c.choose('type', ['int list', 'int', 'int32', 'float32', 'float', 'mixed list', 'uint8']), c.choose('history', ['plain', 'slice', 'take', 'unit', 'unit-slice']), c.choose('delta', [0.25, -0.4])


def run_dt(sc, rec):
    kind, unit, dt, hist, delta = sc
    x = {'ff1d': [1, 0, 1], 'ff2d': [[1, 0], [0, 1], [1, 1]], 'nf2d': [[1, 0], [7, 3], [2, 1]]}[kind]
    v = np.array(x)
    if 'list' in dt:
        loc = (v * 1.0).tolist() if dt == 'mixed list' else v.tolist()
        if dt == 'mixed list':
            loc[0] = x[0]
    else:
        loc = v.astype({'int': np.int64}.get(dt) or (np.bool_ if dt == 'bool' else np.dtype(dt)))
    if dt == 'bool':
        v = np.asarray(v, dtype=bool).astype(float)
    F = S()
    s = F.NearField2DSourcePlacement(loc) if kind == 'nf2d' else (F.FarField1DSourcePlacement if kind == 'ff1d' else F.FarField2DSourcePlacement)(loc, unit)
    require(ref.close(s.locations, v.astype(float), 0), 'locations {}', s.locations)
    want = v.astype(float)
    if hist == 'slice':
        s, want = s[:2], want[:2]
    elif hist == 'take':
        s, want = s[[2, 0]], want[[2, 0]]
    elif 'unit' in hist:
        s = s.as_unit(unit)
        if hist == 'unit-slice':
            s, want = s[1:], want[1:]
    # estimators refine locations in place: fractions have to survive
    want = want.copy()
    want[0] = want[0] * 0.5 + delta * 0.1
    s.locations[0] = s.locations[0] * 0.5 + delta * 0.1
    require(ref.close(s.locations, want, 1e-6), 'updated to {} but holds {}', want.tolist(), s.locations.tolist())
    rec.step(2)
    rec.state(*sc)


# --------------------------- questions to one placement, updated in between
def make_queries(kind, unit):
    refs = [np.array(REFS[1][:1]), np.array(REFS[2][:2]), np.array(REFS[3][:2]), np.array(REFS[2][1:])]
    ops = [('coords', i) for i in range(4)] + [('delays', i, wl) for i, wl in ((1, 1.0), (1, 0.4), (2, 1.0), (3, 1.0))] + \
        [('halve',), ('reverse',), ('unit', ALPH[kind][-1]), ('spoil',)]

    def run(hist, rec):
        s = mk(kind, LOCS[kind, unit], unit)
        locs = [list(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in LOCS[kind, unit]]
        kept = []
        for e in hist:
            if e[0] == 'coords':
                R = refs[e[1]].copy()
                out = s.calc_spherical_coords(R)
                for i in range(len(R)):
                    for k, x in enumerate(locs):
                        wr, wa, we = ref.spherical(kind, x, unit, ref.pad3(R[i]))
                        r, az, el = [o[i, k] for o in out]
                        require((r == wr or abs(r - wr) < 1e-9) and abs(cmath.exp(1j * az) - cmath.exp(1j * wa)) < 1e-9 and abs(el - we) < 1e-9,
                                '{} after {}: source {} at {} is seen from {} at {}', e, hist, k, x, R[i], (r, az, el))
                kept.append((out, [o.copy() for o in out]))
            elif e[0] == 'delays':
                R = refs[e[1]].copy()
                D = s.phase_delay_matrix(R, e[2])
                W = np.array([[ref.phase(kind, x, unit, ref.pad3(R[i]), ref.pad3(R[0]), e[2]) for x in locs] for i in range(len(R))])
                require(ref.close(D, W, 1e-9), '{} after {}: phase delays\n{}\nexpected\n{}', e, hist, D, W)
                kept.append(([D], [D.copy()]))
            elif e[0] == 'halve':
                s.locations[-1] *= 0.5
                locs[-1] = [0.5 * v for v in locs[-1]] if isinstance(locs[-1], list) else 0.5 * locs[-1]
            elif e[0] == 'reverse':
                s.locations[:] = s.locations[::-1].copy()
                locs.reverse()
            elif e[0] == 'unit':
                s.as_unit(e[1])
            elif e[0] == 'spoil':               # results belong to the caller
                for out, _ in kept:
                    for o in out:
                        if o.flags.writeable:
                            o *= 0.0
                kept = []
            require(all(np.array_equal(a, b) for out, c in kept for a, b in zip(out, c)), 'earlier answers changed after {}', hist)
            require(ref.close(s.locations, np.array(locs), 1e-12), 'locations {} expected {} after {}', s.locations, locs, hist)
            rec.step()
        return list(hist), ops
    return run


HARNESSES = [Tree('number types', gen_dt, run_dt), Tree('construction', gen_cons, run_cons), Tree('indexing', gen_idx, run_idx),
             Tree('locate', gen_sph, run_sph), Tree('roots', gen_z, run_z), Tree('many', gen_many, run_many), Tree('many roots', gen_zmany, run_zmany)] + \
    [Graph('chain-%s-%s' % k, make_graph(*k), {'quick': 4, 'thorough': 5}) for k in KINDS] + \
    [Graph('questions-%s-%s' % k, make_queries(*k), {'quick': 3, 'thorough': 5}) for k in KINDS]
