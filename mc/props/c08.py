"""C08 search grids and their refinement."""
import functools
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Tree, Violation, require

ASSUMPTIONS = ['axes are strictly increasing']
PI = math.pi


def E():
    from doatools.estimation import grid
    return grid


def lin(a, b, n):
    return [a + (b - a) * i / n for i in range(n)]


def check_grid(g, kind, unit, axes, rec):
    from doatools.model import sources as S
    cls = {'ff1d': E().FarField1DSearchGrid, 'ff2d': E().FarField2DSearchGrid, 'nf2d': E().NearField2DSearchGrid}[kind]
    pcl = {'ff1d': S.FarField1DSourcePlacement, 'ff2d': S.FarField2DSourcePlacement, 'nf2d': S.NearField2DSourcePlacement}[kind]
    d = len(axes)
    units = (unit,) * d
    shape = tuple(len(a) for a in axes)
    require(isinstance(g, cls), 'grid of type {}', type(g))
    require(g.ndim == d and tuple(g.shape) == shape, 'shape {} expected {}', g.shape, shape)
    require(int(g.size) == int(np.prod(shape)), 'size {}', g.size)
    require(tuple(g.units) == units, 'units {}', g.units)
    names = {'ff1d': ('DOA',), 'ff2d': ('Azimuth', 'Elevation'), 'nf2d': ('x', 'y')}[kind]
    require(tuple(g.axis_names) == names, 'axis names {}', g.axis_names)
    require(len(g.axes) == d, '{} axes', len(g.axes))
    for j in range(d):
        a = np.asarray(g.axes[j])
        require(a.ndim == 1 and ref.close(a, np.array(axes[j], float), 1e-10), 'axis {}: {} expected {}', j, a, axes[j])
    p = g.source_placement
    require(type(p) is pcl and tuple(p.units) == units, 'placement {} {}', type(p), p.units)
    want = np.array(axes[0], float) if d == 1 else np.array([[x, y] for x in axes[0] for y in axes[1]], float).reshape(-1, 2)
    require(p.size == len(want) and ref.close(p.locations, want, 1e-10), 'grid points differ from the documented ones')
    rec.step(3)


# -------------------------------------------------------------- construction
DEF1 = {'rad': (-PI / 2, PI / 2), 'deg': (-90.0, 90.0), 'sin': (-1.0, 1.0)}
DEF2 = {'rad': ((-PI, 0.0), (PI, PI / 2)), 'deg': ((-180.0, 0.0), (180.0, 90.0))}


def gen_cons(c):
    kind = c.choose('kind', ['ff1d', 'ff2d', 'nf2d', 'ff1d-multi', 'ff1d-axes', 'ff2d-axes', 'nf2d-axes'])
    if kind.startswith('ff1d'):
        unit = c.choose('unit', ['rad', 'deg', 'sin'])
    elif kind.startswith('ff2d'):
        unit = c.choose('unit', ['rad', 'deg'])
    else:
        unit = 'm'
    if kind == 'ff1d':
        f = DEF1[unit][1]
        start = c.choose('start', [None, -f, -0.5 * f, 0.1 * f, 0])
        stop = c.choose('stop', [None, f, 0.7 * f, 0.9 * f])
        size = c.choose('size', [None, 1, 2, 3, 7, 20] + ([181, 1000] if c.thorough else []))
        return kind, unit, dict(start=start, stop=stop, size=size), c.choose('call', ['kw', 'pos', 'np'])
    if kind == 'ff1d-multi':
        f = DEF1[unit][1]
        n = c.choose('sections', [1, 2, 3])
        secs = [(-1.0, -0.5), (-0.25, 0.25), (0.3, 0.9), (0.0, 0.6)]       # in any order, also overlapping
        pick = c.choose('which', list(itertools.permutations(range(4), n)) if n < 3 or c.thorough else list(itertools.permutations(range(3))) + [(3, 1, 0), (1, 3, 2)])
        size = [c.choose('size', [1, 2, 5]) for _ in range(n)]
        how = c.choose('container', ['list', 'tuple', 'array'])
        return kind, unit, dict(start=[secs[i][0] * f for i in pick], stop=[secs[i][1] * f for i in pick], size=size), how
    if kind == 'ff1d-axes':
        f = DEF1[unit][1]
        ax = c.choose('axis', [[-0.9, -0.1, 0.5], [-1, 0, 1], [0.2], [-0.5, -0.45, -0.3, 0.3, 0.99]])
        return kind, unit, [[v * f for v in ax]], c.choose('form', ['axes'] + ['axes-' + h for h in alpha.LAYOUTS + ['float32']])
    if kind == 'ff2d':
        (a0, e0), (a1, e1) = DEF2[unit]
        start = c.choose('start', [None, (a0, e0), (0.3 * a0, 0.2 * e1), (0, 0)])
        stop = c.choose('stop', [None, (a1, e1), (0.8 * a1, 0.9 * e1)])
        size = c.choose('size', [None, 1, 4, (2, 3), (5, 1), (1, 6), [3, 2]])
        return kind, unit, dict(start=start, stop=stop, size=size), c.choose('call', ['kw', 'pos'])
    if kind == 'nf2d':
        start = c.choose('start', [(-1.0, 0.5), (0, 0), (-3, 2)])
        stop = c.choose('stop', [(2.0, 3.5), (1, 5)])
        size = c.choose('size', [None, 1, 4, (2, 3), (5, 1), [1, 6]])
        return kind, unit, dict(start=start, stop=stop, size=size), c.choose('call', ['kw', 'pos'])
    f = {'rad': 1.0, 'deg': 57.0, 'm': 2.0}[unit]
    ax = c.choose('axes', [([-1.0, 0.0, 1.0], [0.1, 0.2]), ([0.5], [0.0, 0.3, 1.4]), ([-2.0, -1.9, 3.0, 3.1], [-1.5, 0.1, 1.5]), ([0.1, 0.7], [0.2])])
    return kind, unit, [[v * f for v in a] for a in ax], c.choose('form', ['axes'] + ['axes-' + h for h in alpha.LAYOUTS + ['float32']])


def run_cons(sc, rec):
    kind, unit, o, how = sc
    base = kind.split('-')[0]
    cls = {'ff1d': E().FarField1DSearchGrid, 'ff2d': E().FarField2DSearchGrid, 'nf2d': E().NearField2DSearchGrid}[base]
    if how.startswith('axes'):
        axes = tuple(alpha.typed(a, how[5:] or None) for a in o)
        o = [a.astype(float).tolist() for a in axes]
        g = cls(unit=unit, axes=axes) if base != 'nf2d' else cls(axes=axes)
        check_grid(g, base, unit, o, rec)
        rec.state(kind, unit, o)
        return
    kw = {k: v for k, v in o.items() if v is not None}
    if base != 'nf2d':
        kw['unit'] = unit
    if kind == 'ff1d-multi':
        conv = {'list': list, 'tuple': tuple, 'array': np.array}[how]
        for k in ('start', 'stop', 'size'):
            kw[k] = conv(kw[k])
        want = [[v for a, b, n in zip(o['start'], o['stop'], o['size']) for v in lin(a, b, n)]]
        g = cls(**kw)
    else:
        if how == 'np':             # numpy numbers
            kw = {k: np.float64(v) if k in ('start', 'stop') else np.int16(v) if k == 'size' else v for k, v in kw.items()}
        if how == 'pos' and all(k in kw for k in ('start', 'stop', 'size')):
            args = [kw['start'], kw['stop'], kw['size']] + ([unit] if base != 'nf2d' else [])
            g = cls(*args)
        else:
            g = cls(**kw)
        if base == 'ff1d':
            a = o['start'] if o['start'] is not None else DEF1[unit][0]
            b = o['stop'] if o['stop'] is not None else DEF1[unit][1]
            want = [lin(a, b, o['size'] or 180)]
        else:
            a = o['start'] if o['start'] is not None else DEF2[unit][0]
            b = o['stop'] if o['stop'] is not None else DEF2[unit][1]
            n = o['size'] or (360, 90)
            n = (n, n) if np.isscalar(n) else n
            want = [lin(a[j], b[j], n[j]) for j in range(2)]
    check_grid(g, base, unit, want, rec)
    rec.state(kind, unit, o)


# --------------------------------------------------------------- refinement
def grids(thorough):
    """(kind, unit, axes, maker-kind)"""
    out = []
    for u in ('rad', 'deg', 'sin'):
        f = DEF1[u][1]
        out.append(('ff1d', u, [lin(-f, f, 8)], 'range'))
        out.append(('ff1d', u, [[-f, -0.8 * f, -0.79 * f, 0.0, 0.3 * f, f]], 'axes'))
        out.append(('ff1d', u, [lin(-0.9 * f, -0.5 * f, 3) + lin(0.2 * f, 0.5 * f, 4)], 'axes'))
        out.append(('ff1d', u, [[0.1 * f]], 'axes'))
        out.append(('ff1d', u, [[0.1 * f, 0.4 * f]], 'axes'))
    out.append(('ff1d', 'deg', [[-60, -20, 0, 10, 50]], 'axes-int'))
    for u, f in (('rad', 1.0), ('deg', 50.0)):
        out.append(('ff2d', u, [lin(-2 * f, 2 * f, 4), lin(0.0, 1.5 * f, 3)], 'axes'))
        out.append(('ff2d', u, [[-3 * f, -2.9 * f, 0.0, 2 * f], [-1.5 * f, 0.0, 0.1 * f]], 'axes'))
        out.append(('ff2d', u, [[0.5 * f], [0.1 * f, 0.9 * f]], 'axes'))
    out.append(('nf2d', 'm', [lin(-3.0, 3.0, 5), lin(1.0, 4.0, 3)], 'axes'))
    out.append(('nf2d', 'm', [lin(-1.0, 2.0, 4), lin(-1.5, 2.5, 4)], 'range'))
    out.append(('nf2d', 'm', [[-7.5, -2.0, -0.5], [-4.0, -0.25, 0.5, 3.0]], 'axes'))
    out.append(('ff2d', 'deg', [[-170.0, -20.0, 35.0], [-70.0, -5.0, 5.0, 80.0]], 'axes'))
    out.append(('nf2d', 'm', [[-5.0, 0.0, 0.1, 3.0], [1.0, 1.5, 9.0]], 'axes'))
    for how in alpha.LAYOUTS:
        out.append(('ff1d', 'deg', [[-71.5, -20.0, 0.25, 10.0, 50.5]], 'axes-' + how))
        out.append(('ff2d', 'rad', [[-2.0, 0.5, 3.0], [0.0, 0.125, 1.5]], 'axes-' + how))
    out.append(('nf2d', 'm', [[-5, 0, 1, 300], [1, 2, 90]], 'axes-int16'))
    out.append(('ff1d', 'deg', [[-90, -20, 0, 10, 89]], 'axes-int8'))
    out.append(('nf2d', 'm', [[-5, 0, 1, 300], [1, 2, 90]], 'axes-int'))
    out.append(('nf2d', 'm', [[-5e4, 0.0, 1e-3], [1e-4, 2.0, 9e5]], 'axes'))
    if thorough:
        out.append(('ff1d', 'rad', [lin(-PI / 2, PI / 2, 40)], 'range'))
        out.append(('ff2d', 'rad', [lin(-PI, PI, 9), lin(0.0, PI / 2, 7)], 'axes'))
    return out


_grids = functools.lru_cache(None)(grids)


def make(kind, unit, axes, how):
    form = how[5:] if how.startswith('axes-') else None
    ax = tuple(np.array(a, form) if form and form.startswith('int') else alpha.relayout(np.array(a, float), form) for a in axes)
    if kind == 'ff1d':
        if how == 'range':
            f = DEF1[unit][1]
            return E().FarField1DSearchGrid(-f, f, len(axes[0]), unit)
        return E().FarField1DSearchGrid(unit=unit, axes=ax)
    if kind == 'ff2d':
        return E().FarField2DSearchGrid(unit=unit, axes=ax)
    return E().NearField2DSearchGrid(axes=ax)


def refined(axis, c, density, span):
    lo, hi = max(0, c - span), min(len(axis) - 1, c + span)
    out = []
    for i in range(lo, hi):
        out += [axis[i] + (axis[i + 1] - axis[i]) * j / density for j in range(density)]
    return out + [axis[hi]]


def gen_ref(c):
    g = c.choose('grid', _grids(c.thorough))
    coord = tuple(c.choose('coord', list(range(len(a)))) for a in g[2])
    density = c.choose('density', [10, 1, 2, 3, 7] + ([4, 20] if c.thorough else []))
    span = c.choose('span', [1, 2, 3, 50])
    return g, coord, density, span, c.choose('coordtype', ['tuple', 'np'])


def run_ref(sc, rec):
    (kind, unit, axes, how), coord, density, span, ct = sc
    g = make(kind, unit, axes, how)
    axes = [[float(v) for v in a] for a in axes]
    want = [refined(a, c, density, span) for a, c in zip(axes, coord)]
    cc = coord if ct == 'tuple' else tuple(np.int64(c) for c in coord)
    ax = g.create_refined_axes_at(cc, density, span)
    require(isinstance(ax, tuple) and len(ax) == len(axes), 'axes {}', ax)
    for j, (a, w) in enumerate(zip(ax, want)):
        require(a.shape == (len(w),) and ref.close(a, np.array(w), 1e-10), 'refined axis {}: {} expected {}', j, a, w)
    f = g.create_refined_grid_at(cc, density=density, span=span)
    check_grid(f, kind, unit, want, rec)
    if (density, span) == (10, 1):
        check_grid(g.create_refined_grid_at(cc), kind, unit, want, rec)
    # original points inside the span are kept
    for a, w, c in zip(axes, want, coord):
        for i in range(max(0, c - span), min(len(a) - 1, c + span) + 1):
            require(min(abs(a[i] - x) for x in w) < 1e-9, 'original point lost')
    # refine once more: nested subdivision
    mid = tuple(len(w) // 2 for w in want)
    check_grid(f.create_refined_grid_at(mid, density=2, span=1), kind, unit,
               [refined(w, m, 2, 1) for w, m in zip(want, mid)], rec)
    # several coordinates at once
    other = tuple(len(a) - 1 for a in axes)
    many = g.create_refined_grids_at(*[np.array([c, o]) for c, o in zip(coord, other)], density=density, span=span)
    require(len(many) == 2, '{} grids', len(many))
    check_grid(many[0], kind, unit, want, rec)
    check_grid(many[1], kind, unit, [refined(a, o, density, span) for a, o in zip(axes, other)], rec)
    # the returned grid is separate from the original
    x = f.axes[0]
    if x.flags.writeable:
        x *= 0.5
    check_grid(g, kind, unit, axes, rec)
    rec.step(6)
    rec.state(kind, unit, coord, density, span)


def gen_bad(c):
    return c.choose('grid', _grids(False)), c.choose('bad', ['density0', 'density-1', 'span0', 'span-2', 'short', 'long'])


def run_bad(sc, rec):
    (kind, unit, axes, how), bad = sc
    g = make(kind, unit, axes, how)
    coord = tuple(0 for _ in axes)
    d, s = 10, 1
    if bad.startswith('density'):
        d = int(bad[7:])
    elif bad.startswith('span'):
        s = int(bad[4:])
    elif bad == 'short':
        coord = coord[:-1]
    else:
        coord = coord + (0,)
    for f in (lambda: g.create_refined_axes_at(coord, d, s), lambda: g.create_refined_grid_at(coord, density=d, span=s)):
        try:
            f()
        except ValueError:
            pass
        else:
            raise Violation('%s accepted' % bad)
        rec.step()
    check_grid(g, kind, unit, [[float(v) for v in a] for a in axes], rec)
    rec.state(kind, unit, bad)


# ------------------------------------------------------------- large grids
def gen_large(c):
    kind, unit = c.choose('kind', [('ff1d', 'rad'), ('ff1d', 'deg'), ('ff1d', 'sin'), ('ff2d', 'rad'), ('ff2d', 'deg'), ('nf2d', 'm')])
    if kind == 'ff1d':
        n = (c.choose('n', [33, 64, 65, 90, 128, 179, 180, 181, 256, 257, 360, 361, 720, 1000, 1024, 1801]),)
    else:
        n = c.choose('n', [(33, 2), (2, 33), (17, 19), (64, 65), (90, 30), (36, 91), (101, 101)])
    what = c.choose('how', ['range', 'axes', 'sections'] if kind == 'ff1d' else ['range', 'axes'])
    pos = c.choose('where', [0.0, 0.004, 0.31, 0.5, 0.77, 0.996, 1.0])
    return kind, unit, n, what, pos, c.choose('refine', [(10, 1), (1, 1), (3, 4), (25, 2), (64, 1), (100, 1), (2, 40)] if kind == 'ff1d' else [(10, 1), (3, 4), (17, 2), (1, 3)])


def run_large(sc, rec):
    kind, unit, n, what, pos, (density, span) = sc
    cls = {'ff1d': E().FarField1DSearchGrid, 'ff2d': E().FarField2DSearchGrid, 'nf2d': E().NearField2DSearchGrid}[kind]
    kw = {} if kind == 'nf2d' else {'unit': unit}
    if kind == 'ff1d':
        f = DEF1[unit][1]
        if what == 'range':
            axes, g = [lin(-f, 0.9 * f, n[0])], cls(-f, 0.9 * f, n[0], **kw)
        elif what == 'sections':
            b = [-f, -0.6 * f, -0.1 * f, 0.05 * f, 0.3 * f, 0.8 * f]
            m = [n[0] // 5] * 4 + [n[0] - 4 * (n[0] // 5)]
            axes, g = [[v for x, y, k in zip(b, b[1:], m) for v in lin(x, y, k)]], cls(b[:-1], b[1:], m, **kw)
        else:
            axes = [[f * math.sin(-1.4 + 2.8 * i / n[0]) for i in range(n[0])]]
            g = cls(axes=(np.array(axes[0]),), **kw)
    else:
        if kind == 'ff2d':
            (a0, e0), (a1, e1) = DEF2[unit]
        else:
            (a0, e0), (a1, e1) = (-4.0, 0.5), (4.0, 9.0)
        if what == 'range':
            axes, g = [lin(a0, a1, n[0]), lin(e0, e1, n[1])], cls((a0, e0), (a1, e1), n, **kw)
        else:
            axes = [[lo + (hi - lo) * (i / k) ** 2 for i in range(k)] for lo, hi, k in ((a0, a1, n[0]), (e0, e1, n[1]))]
            g = cls(axes=tuple(np.array(a) for a in axes), **kw)
    check_grid(g, kind, unit, axes, rec)
    coord = tuple(min(len(a) - 1, int(round(pos * (len(a) - 1)))) for a in axes)
    want = [refined(a, c, density, span) for a, c in zip(axes, coord)]
    check_grid(g.create_refined_grid_at(coord, density=density, span=span), kind, unit, want, rec)
    for a, w in zip(g.create_refined_axes_at(coord, density, span), want):
        require(ref.close(np.asarray(a), np.array(w), 1e-10), 'refined axes at {}', coord)
    # many coordinates in one call
    cs = [np.array([min(len(a) - 1, (i * len(a)) // 11) for i in range(11)]) for a in axes]
    many = g.create_refined_grids_at(*cs, density=2, span=1)
    require(len(many) == 11, '{} grids', len(many))
    for i, h in enumerate(many):
        for j, (a, c) in enumerate(zip(axes, cs)):
            require(ref.close(np.asarray(h.axes[j]), np.array(refined(a, int(c[i]), 2, 1)), 1e-10), 'grid {} of many', i)
    check_grid(g, kind, unit, axes, rec)
    rec.step(4)
    rec.state(*sc)


# ------------------------------------- histories of refinement on one grid
def make_graph(idx):
    def run(hist, rec):
        kind, unit, axes, how = _grids(False)[idx]
        live = [(make(kind, unit, axes, how), [[float(v) for v in a] for a in axes])]
        for e in hist:
            g, ax = live[e[1]]
            if e[0] == 'ref':
                coord = tuple(int(round((len(a) - 1) * e[2])) for a in ax)
                live.append((g.create_refined_grid_at(coord, density=e[3], span=e[4]),
                             [refined(a, c, e[3], e[4]) for a, c in zip(ax, coord)]))
            elif e[0] == 'src':
                g.source_placement
            elif e[0] == 'derive':
                p = g.source_placement[:]
                p.locations[:] = 0
            rec.step()
            for h, a in live:
                check_grid(h, kind, unit, a, rec)
        ev = []
        for i in range(len(live)):
            if len(live) < 4:
                ev += [('ref', i, p, d, s) for p in (0.0, 0.5, 1.0) for d, s in ((3, 1), (2, 2), (2, 1))]
            ev += [('src', i), ('derive', i)]
        return list(hist), ev
    return run


HARNESSES = [Tree('construction', gen_cons, run_cons), Tree('refinement', gen_ref, run_ref), Tree('rejected', gen_bad, run_bad), Tree('large', gen_large, run_large)] + \
    [Graph('chain-%d' % i, make_graph(i), {'quick': 3, 'thorough': 4}) for i in (0, 1, 8, 15, 17, 22)]
