"""C21 plotting: the artists in the axes against the data handed in."""
import itertools
import math

import numpy as np

from .. import alpha, ref
from .. import spectral as SP
from ..engine import Skip, Tree, require

ASSUMPTIONS = ['Agg backend; artists are inspected, pixels are not rendered except in the "draw" scenarios',
               '2D spectra: grids with at least two points per axis, uniformly spaced and increasing (the image has one cell per grid point)']


def plt_():
    import matplotlib
    matplotlib.use('Agg', force=False)
    import matplotlib.pyplot as plt
    return plt


def PL():
    import importlib
    import types
    import doatools.plotting as p
    m = importlib.import_module('doatools.plotting.plot_spectrum')
    return types.SimpleNamespace(plot_spectrum=p.plot_spectrum, plot_array=p.plot_array, plot_coarray=p.plot_coarray,
                                 plot_spectrum_1d=m.plot_spectrum_1d, plot_spectrum_2d=m.plot_spectrum_2d)


class Scene:
    """Figures around the call; only ``ax`` may change."""

    def __init__(self, kind, proj=None):
        import doatools.plotting.plot_array  # noqa: F401  (registers 3d)
        plt = plt_()
        plt.close('all')
        self.kind = kind
        self.shown = 0
        self.others = []
        kw = {'projection': proj} if proj else {}
        if kind == 'none':
            f = plt.figure()
            self.others.append(f.add_subplot(111))
            self.ax = None
        elif kind == 'empty':
            self.ax = None
        elif kind == 'current':
            self.ax = plt.figure().add_subplot(111, **kw)
        elif kind == 'other-figure-current':
            self.ax = plt.figure().add_subplot(111, **kw)
            self.others.append(plt.figure().add_subplot(111))
        elif kind == 'other-subplot-current':
            f = plt.figure()
            self.ax = f.add_subplot(121, **kw)
            self.others.append(f.add_subplot(122))
        elif kind == 'unmanaged':
            from matplotlib.figure import Figure
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            f = Figure()
            FigureCanvasAgg(f)
            self.ax = f.add_subplot(111, **kw)
        elif kind == 'used':
            self.ax = plt.figure().add_subplot(111, **kw)
            self.ax.plot([0.0, 0.1], [0.2, 0.3])
        self.before = self.snap()
        self.fignums = list(plt.get_fignums())
        self.own = self.arts(self.ax) if self.ax is not None else {}
        self._show = plt.show

        def show(*a, **k):
            self.shown += 1
        plt.show = show

    @staticmethod
    def arts(ax):
        return {id(a): a for a in list(ax.lines) + list(ax.collections) + list(ax.images) + list(ax.patches)}

    def snap(self):
        return [(sorted(self.arts(a)), a.get_legend(), a.get_xlabel(), a.get_ylabel(), a.get_yscale(), a.get_xlim(), a.get_ylim(),
                 len(a.figure.axes) if self.kind != 'other-subplot-current' else 0) for a in self.others]

    def done(self, ax):
        plt = plt_()
        plt.show = self._show
        require(self.snap() == self.before, 'axes other than the given ones changed')
        nums = list(plt.get_fignums())
        if self.ax is None:
            require(self.shown == 1, 'new figure shown {} times', self.shown)
            require(len(nums) == len(self.fignums) + 1, '{} figures created', len(nums) - len(self.fignums))
            require(all(ax is not a for a in self.others), 'drawn in existing axes')
        else:
            require(ax is self.ax, 'returned axes are not the given ones')
            require(self.shown == 0, 'plt.show called although axes were given')
            require(nums == self.fignums, 'figures created although axes were given')
        new = [a for i, a in self.arts(ax).items() if i not in self.own]
        for i in self.own:
            require(i in self.arts(ax), 'earlier content of the axes disappeared')
        return new

    def close(self):
        plt = plt_()
        plt.show = self._show
        plt.close('all')


SCENES = ['current', 'other-figure-current', 'other-subplot-current', 'none', 'empty', 'unmanaged', 'used']


def data(container):
    """(x, y, artists) of a 1D plot container."""
    from matplotlib.container import StemContainer
    from matplotlib.lines import Line2D
    if isinstance(container, StemContainer):
        ml, sl, bl = container
        x, y = np.asarray(ml.get_xdata(), dtype=float), np.asarray(ml.get_ydata(), dtype=float)
        segs = [np.asarray(s) for s in sl.get_segments()] if hasattr(sl, 'get_segments') else None
        if segs is not None:
            require(len(segs) == len(x), '{} stems for {} points', len(segs), len(x))
            for s, xx, yy in zip(segs, x, y):
                require(s[0][0] == s[1][0] == xx and max(s[:, 1], key=abs) == (yy if yy else s[0][1]) or abs(yy) < 1e-300,
                        'stem {} for the point {}', s.tolist(), (xx, yy))
        return x, y, [ml, sl, bl]
    if isinstance(container, Line2D):
        container = [container]
    require(len(container) == 1 and isinstance(container[0], Line2D), 'container {}', container)
    return np.asarray(container[0].get_xdata(), dtype=float), np.asarray(container[0].get_ydata(), dtype=float), list(container)


# ------------------------------------------------------------------ 1D
def G():
    from doatools.estimation import grid
    return grid


def S():
    from doatools.model import sources
    return sources


def grid1(kind):
    g = G()
    return {'rad': lambda: g.FarField1DSearchGrid(size=6), 'deg': lambda: g.FarField1DSearchGrid(size=5, unit='deg'),
            'sin': lambda: g.FarField1DSearchGrid(size=7, unit='sin'),
            'sections': lambda: g.FarField1DSearchGrid([-60, 10], [-40, 50], [3, 2], unit='deg'),
            'axes': lambda: g.FarField1DSearchGrid(unit='deg', axes=(np.array([-40.0, -3.5, 2.0, 60.0]),)),
            'single': lambda: g.FarField1DSearchGrid(unit='deg', axes=(np.array([12.0]),)),
            'fine180': lambda: g.FarField1DSearchGrid(size=180), 'fine361': lambda: g.FarField1DSearchGrid(size=361, unit='deg'),
            'fine2001': lambda: g.FarField1DSearchGrid(size=2001, unit='sin'),
            'uneven150': lambda: g.FarField1DSearchGrid(unit='deg', axes=(np.array([90 * math.sin(-1.5 + 3.0 * i / 149) for i in range(150)]),))}[kind]()


def spec1(kind, n, i):
    b = np.array([0.4 + math.sin(1.7 * j + 0.9 * i) ** 2 for j in range(n)]) * (1 + i)
    if kind == 'negative part':
        return b - 0.9
    if kind == 'all negative':
        return -b - 1.0
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'int':
        return np.round(10 * b).astype(int)
    if kind == 'large':
        return b * 1e12
    if kind == 'tiny':
        return b * 1e-9
    if kind == 'normalised':
        return b / b.max()
    if kind == 'sparse':
        b[::2] = 0.0
        return b
    if kind == 'float32':
        return b.astype(np.float32)
    if kind == 'int8':
        return np.round(100 * b / b.max()).astype(np.int8)
    if kind == 'dynamic':
        return b * 10.0 ** (-12.0 * np.arange(n) / max(1, n - 1))
    if kind == 'huge':
        return b * 1e200
    if kind == 'denormal':
        return b * 1e-200
    if kind == 'flat':
        return np.full(n, 0.3 + i)
    if kind == 'last':
        return np.sort(b)
    return b


def kind_range(grid):
    return {'rad': (-np.pi / 2, np.pi / 2), 'deg': (-90.0, 90.0), 'sin': (-1.0, 1.0)}[grid.units[0]]


def places(kind, grid, n):
    if n is None:
        return None
    x = grid.axes[0]
    if not isinstance(n, int):
        q = np.array([x[0] + (x[-1] - x[0]) * f for f in (0.91, 0.52, 0.13)])
        if n == 'same':                     # two estimates at one location, on grid points
            q = np.array([x[-1], x[0], x[0]])
        if n == 'int':
            q = np.round(q).astype(int)
            if grid.units[0] != 'deg':
                q = np.array([0])
        if n == 'outside':                  # partly or all outside the plotted range
            lo, hi = kind_range(grid)
            q = np.array([hi, 0.5 * (x[0] + x[-1]), lo])
        if n == 'beyond':
            q = np.array([kind_range(grid)[1]])
        if n == 'strided':
            q = alpha.relayout(q, 'strided')
        return S().FarField1DSourcePlacement(q, grid.units[0])
    v = np.array([x[0] + (x[-1] - x[0]) * f for f in (0.37, 0.11, 0.83, 0.5)[:n]]) if len(x) > 1 else np.full(n, x[0])
    return S().FarField1DSourcePlacement(v, grid.units[0])


CONT = ['array', 'list1', 'list2', 'tuple2', 'dict1', 'dict2', 'list10', 'dict3']


def gen_1d(c):
    k = c.choose('grid', ['rad', 'deg', 'sin', 'sections', 'axes', 'single'])
    cont = c.choose('container', CONT)
    sp = c.choose('spectrum', ['plain', 'negative part', 'all negative', 'zero', 'int', 'large', 'tiny', 'normalised', 'sparse', 'float32', 'int8', 'dynamic', 'huge', 'denormal', 'flat', 'last'])
    disc = c.choose('discrete', [False, True, None])
    log = c.choose('log', [False, True])
    est = c.choose('estimates', [None, 1, 2, 3, 'descending', 'same', 'int', 'strided', 'outside', 'beyond'])
    tru = c.choose('truth', [None, 1, 2, 3, 'outside', 'beyond', 'descending'])
    scene = c.choose('scene', SCENES)
    direct = c.choose('direct', [False, True])
    ro = c.choose('layout', ['plain'] + alpha.LAYOUTS)
    return k, cont, sp, disc, log, est, tru, scene, direct, ro


def gen_1d_large(c):
    return (c.choose('grid', ['fine180', 'fine361', 'fine2001', 'uneven150']), c.choose('container', ['array', 'list2', 'dict3', 'list10', 'tuple2']),
            c.choose('spectrum', ['plain', 'negative part', 'int', 'sparse', 'tiny']), c.choose('discrete', [False, True]), c.choose('log', [False, True]),
            c.choose('estimates', [None, 3, 4]), c.choose('truth', [None, 2, 4]), c.choose('scene', ['current', 'none']), False, c.choose('layout', ['plain', 'strided', 'reversed']))


def run_1d(sc, rec):
    k, cont, spk, disc, log, est, tru, scene, direct, ro = sc
    grid = grid1(k)
    n = grid.size
    cnt = 1 if cont in ('array', 'list1', 'dict1') else int(''.join(ch for ch in cont if ch.isdigit()))
    sps = [spec1(spk, n, i) for i in range(cnt)]
    if log and any((s <= 0).any() for s in sps) and not any((s > 0).any() for s in sps):
        raise Skip()                                   # nothing to show on a log axis
    keep = [s.copy() for s in sps]
    sps = [alpha.relayout(s, ro) for s in sps]
    labels = ['MUSIC', 'ESPRIT spectrum', 'x3'][:cnt]
    if cont == 'array':
        sp = sps[0]
    elif cont.startswith('list'):
        sp = list(sps)
    elif cont.startswith('tuple'):
        sp = tuple(sps)
    else:
        sp = dict(zip(labels, sps))
    e, t = places(k, grid, est), places(k, grid, tru)
    if t is not None and len(grid.axes[0]) > 1 and isinstance(tru, int):
        t = S().FarField1DSourcePlacement(t.locations + 0.013 * (grid.axes[0][1] - grid.axes[0][0]), grid.units[0])
    ax0 = grid.axes[0].copy()
    loc0 = [None if p is None else p.locations.copy() for p in (e, t)]
    sn = Scene(scene)
    try:
        kw = {} if disc is None else {'discrete': disc}
        if direct:
            if sn.ax is None:
                raise Skip()
            ret = PL().plot_spectrum_1d(sp, grid, sn.ax, e, t, log, **kw)
            ax = sn.ax
        else:
            ax, ret = PL().plot_spectrum(sp, grid, ax=sn.ax, estimates=e, ground_truth=t, use_log_scale=log, **kw)
        rec.step()
        new = sn.done(ax)
        require(len(ret) == cnt + (est is not None) + (tru is not None), '{} containers', len(ret))
        owned = []
        for i, s in enumerate(keep):
            x, y, a = data(ret[i])
            owned += a
            m = s.max()
            want = s / m if m > 0 else s
            require(ref.close(x, ax0, 1e-12), 'spectrum {} drawn at {} instead of {}', i, x, ax0)
            require(y.shape == want.shape and np.allclose(y, want, rtol=1e-6 if spk == 'float32' else 1e-12, atol=0), 'spectrum {} drawn as {} instead of {}', i, y, want)
            require((len(a) == 3) == bool(disc), 'stem/line mix-up')
        j = cnt
        for p, q in ((e, loc0[0]), (t, loc0[1])):
            if p is None:
                continue
            x, y, a = data(ret[j])
            owned += a
            j += 1
            require(ref.close(np.ravel(x), q, 1e-12) and ref.close(y, np.ones(len(q)), 1e-12), 'sources {} marked at {} with heights {}', q, x, y)
        for a in owned:
            require(a.axes is ax, 'container drawn elsewhere')
        require({id(a) for a in new} <= {id(a) for a in owned}, '{} unexpected artists', len(new) - len(owned))
        require(ax.get_yscale() == ('log' if log else 'linear'), 'y scale {}', ax.get_yscale())
        require(grid.axis_names[0] in ax.get_xlabel() and grid.units[0] in ax.get_xlabel(), 'x label {}', ax.get_xlabel())
        if cont.startswith('dict'):
            leg = ax.get_legend()
            txt = [z.get_text() for z in leg.get_texts()] if leg is not None else []
            for i, l in enumerate(labels):
                require(l in txt, 'label {} missing in the legend {}', l, txt)
                h = ret[i].get_label() if not isinstance(ret[i], list) else ret[i][0].get_label()
                require(h == l, 'spectrum {} labelled {}', i, h)
        if est is not None or tru is not None:
            require(ax.get_legend() is not None, 'no legend for the marked sources')
        if not log and scene != 'used' and len(ax0) > 1 and est is None and tru is None:
            lo, hi = ax.get_ylim()
            for s in keep:
                w = s / s.max() if s.max() > 0 else s
                if (w >= 0).all():
                    require(lo <= w.min() + 1e-12 and hi >= w.max() - 1e-12, 'y range {} hides the spectrum', (lo, hi))
            lo, hi = ax.get_xlim()
            require(lo <= ax0.min() + 1e-12 and hi >= ax0.max() - 1e-12, 'x range {} hides the spectrum', (lo, hi))
        # colours: distinct artists of estimates and truth differ from spectra
        for s, q in zip(sps, keep):
            require(np.array_equal(s, q), 'spectrum modified')
        require(np.array_equal(grid.axes[0], ax0), 'grid modified')
        for p, q in zip((e, t), loc0):
            require(p is None or np.array_equal(p.locations, q), 'source locations modified')
        if isinstance(sp, (list, tuple)):
            require(len(sp) == cnt and all(a is b for a, b in zip(sp, sps)), 'container modified')
        rec.state(k, cont, spk, disc, log, est, tru)
    finally:
        sn.close()


# ------------------------------------------------------------------ 2D
def grid2(kind):
    g = G()
    return {'rad': lambda: g.FarField2DSearchGrid(size=(5, 3)), 'deg': lambda: g.FarField2DSearchGrid(size=(2, 4), unit='deg'),
            'square': lambda: g.FarField2DSearchGrid(start=(10, 20), stop=(30, 50), size=3, unit='deg'),
            'near': lambda: g.NearField2DSearchGrid((-1, 1), (2, 5), (4, 3)),
            'fine': lambda: g.FarField2DSearchGrid(size=(91, 31), unit='deg'), 'fine-rad': lambda: g.FarField2DSearchGrid(size=(60, 60)),
            'fine-near': lambda: g.NearField2DSearchGrid((-10, 0.5), (10, 20), (50, 77))}[kind]()


def places2(grid, n, shift=0.0):
    if n is None:
        return None
    ax = grid.axes
    f = [(0.3, 0.8), (0.75, 0.2), (0.1, 0.45)][:n if isinstance(n, int) else 3]
    v = np.array([[a[0] + (a[-1] - a[0]) * (q + shift) for a, q in zip(ax, p)] for p in f])
    if n == 'outside':                  # partly outside the plotted range
        v[0] = {'rad': (-3.1, -1.5), 'deg': (179.0, -85.0), 'm': (-40.0, 60.0)}[grid.units[0]]
    if grid.units[0] == 'm':
        return S().NearField2DSourcePlacement(v)
    return S().FarField2DSourcePlacement(v, grid.units[0])


def gen_2d(c):
    return (c.choose('grid', ['rad', 'deg', 'square', 'near']), c.choose('spectrum', ['plain', 'int', 'negative part', 'large', 'int8', 'dynamic', 'huge', 'denormal', 'flat', 'float32']),
            c.choose('log', [False, True]), c.choose('swap', [None, False, True]), c.choose('cmap', [None, 'gray']),
            c.choose('estimates', [None, 1, 2, 'outside']), c.choose('truth', [None, 1, 3, 'outside']),
            c.choose('scene', SCENES), c.choose('direct', [False, True]), c.choose('layout', ['plain'] + alpha.LAYOUTS))


def gen_2d_large(c):
    return (c.choose('grid', ['fine', 'fine-rad', 'fine-near']), c.choose('spectrum', ['plain', 'int', 'large']), c.choose('log', [False, True]),
            c.choose('swap', [None, True]), None, c.choose('estimates', [None, 2]), c.choose('truth', [None, 3]), c.choose('scene', ['current', 'none']), False, c.choose('layout', ['plain', 'strided', 'fortran']))


def run_2d(sc, rec):
    k, spk, log, swap, cmap, est, tru, scene, direct, lay = sc
    grid = grid2(k)
    sp = spec1(spk, grid.size, 1).reshape(grid.shape)
    if log and (sp <= 0).any():
        raise Skip()
    sp = alpha.relayout(sp, lay)
    sp0 = sp.copy()
    axes0 = [a.copy() for a in grid.axes]
    e, t = places2(grid, est), places2(grid, tru, 0.02)
    loc0 = [None if p is None else p.locations.copy() for p in (e, t)]
    kw = {}
    if swap is not None:
        kw['swap_axes'] = swap
    if cmap is not None:
        kw['color_map'] = cmap
    sn = Scene(scene)
    try:
        if direct:
            if sn.ax is None:
                raise Skip()
            ret = PL().plot_spectrum_2d(sp, grid, sn.ax, e, t, log, **kw)
            ax = sn.ax
        else:
            ax, ret = PL().plot_spectrum(sp, grid, ax=sn.ax, estimates=e, ground_truth=t, use_log_scale=log, **kw)
        rec.step()
        new = sn.done(ax)
        require(len(ret) == 1 + (est is not None) + (tru is not None), '{} containers', len(ret))
        im = ret[0]
        require(im.axes is ax, 'image drawn elsewhere')
        cells = image_cells(im)
        ix, iy = (1, 0) if swap else (0, 1)
        hit = set()
        for i in range(grid.shape[0]):
            for j in range(grid.shape[1]):
                co = (axes0[0][i], axes0[1][j])
                v, key = cells(co[ix], co[iy])
                require(abs(v - sp0[i, j]) <= 1e-9 * abs(sp0[i, j]), 'value {} shown at {} instead of {}', v, co, sp0[i, j])
                hit.add(key)
        require(len(hit) == grid.size, 'cells shared by grid points')
        for lab, d in ((ax.get_xlabel(), ix), (ax.get_ylabel(), iy)):
            require(grid.axis_names[d] in lab and grid.units[d] in lab, 'axis label {}', lab)
        j = 1
        owned = [im]
        for p, q in ((e, loc0[0]), (t, loc0[1])):
            if p is None:
                continue
            a = ret[j]
            j += 1
            owned.append(a)
            require(a.axes is ax, 'sources drawn elsewhere')
            require(ref.close(np.asarray(a.get_offsets()), q[:, [ix, iy]], 1e-12), 'sources {} marked at {}', q.tolist(), np.asarray(a.get_offsets()).tolist())
        require({id(a) for a in new} <= {id(a) for a in owned}, 'unexpected artists')
        from matplotlib.colors import LogNorm
        require(isinstance(im.norm, LogNorm) == log, 'colour norm {}', im.norm)
        require(im.get_cmap().name == (cmap or 'jet'), 'colour map {}', im.get_cmap().name)
        lo, hi = ax.get_xlim()
        require(min(lo, hi) <= axes0[ix].min() + 1e-12 and max(lo, hi) >= axes0[ix].max() - 1e-12, 'x range')
        lo, hi = ax.get_ylim()
        require(min(lo, hi) <= axes0[iy].min() + 1e-12 and max(lo, hi) >= axes0[iy].max() - 1e-12, 'y range')
        if est is not None or tru is not None:
            require(ax.get_legend() is not None, 'no legend')
        require(np.array_equal(sp, sp0), 'spectrum modified')
        require(all(np.array_equal(a, b) for a, b in zip(grid.axes, axes0)), 'grid modified')
        for p, q in zip((e, t), loc0):
            require(p is None or np.array_equal(p.locations, q), 'source locations modified')
        rec.state(k, spk, log, swap, cmap, est, tru)
    finally:
        sn.close()


def image_cells(im):
    """Lookup of the value drawn at data coordinates for images and meshes."""
    if hasattr(im, 'get_extent'):
        A = np.asarray(im.get_array())
        x0, x1, y0, y1 = im.get_extent()
        r, c = A.shape

        def at(x, y):
            u = (x - x0) / (x1 - x0) * c
            v = (y - y0) / (y1 - y0) * r
            if im.origin == 'upper':
                v = r - v
            iu, iv = (min(n - 1, max(0, int(math.floor(w + 1e-9)))) for w, n in ((u, c), (v, r)))
            require(-1e-9 <= u <= c + 1e-9 and -1e-9 <= v <= r + 1e-9, 'grid point {} outside the image', (x, y))
            return float(A[iv, iu]), (iv, iu)
        return at
    C = np.asarray(im.get_coordinates())                # QuadMesh
    A = np.asarray(im.get_array()).reshape(C.shape[0] - 1, C.shape[1] - 1)

    def at(x, y):
        cx, cy = C[0, :, 0], C[:, 0, 1]
        iu = min(A.shape[1] - 1, int(np.searchsorted(cx, x + 1e-12, 'right')) - 1)
        iv = min(A.shape[0] - 1, int(np.searchsorted(cy, y + 1e-12, 'right')) - 1)
        return float(A[iv, iu]), (iv, iu)
    return at


# ------------------------------------------------------------- rejections
def gen_bad(c):
    dim = c.choose('dim', [1, 2])
    bad = c.choose('bad', ['estimate unit', 'truth unit', 'shape', 'shape in list', 'shape in dict', 'empty list', 'empty dict', 'type', 'transposed'])
    return dim, bad, c.choose('direct', [False, True]), c.choose('log', [False, True])


def run_bad(sc, rec):
    dim, bad, direct, log = sc
    grid = grid1('deg') if dim == 1 else grid2('deg')
    sp = spec1('plain', grid.size, 0).reshape(grid.shape)
    e = t = None
    other = (S().FarField1DSourcePlacement([0.1], 'rad') if dim == 1 else S().FarField2DSourcePlacement(np.array([[0.1, 0.2]]), 'rad'))
    if bad == 'estimate unit':
        e = other
    elif bad == 'truth unit':
        t = other
    elif bad == 'shape':
        sp = sp[:-1]
    elif dim == 2:
        if bad != 'transposed':
            raise Skip()
        sp = sp.T
    elif bad == 'transposed':
        sp = sp.reshape(-1, 1)
    elif bad == 'shape in list':
        sp = [sp, sp[:-1]]
    elif bad == 'shape in dict':
        sp = {'a': sp, 'b': np.append(sp, 1.0)}
    elif bad == 'empty list':
        sp = []
    elif bad == 'empty dict':
        sp = {}
    elif bad == 'type':
        sp = 'abc'
    sn = Scene('current')
    try:
        f = PL().plot_spectrum_1d if dim == 1 else PL().plot_spectrum_2d
        try:
            if direct:
                f(sp, grid, sn.ax, e, t, log)
            else:
                PL().plot_spectrum(sp, grid, sn.ax, None, e, t, log)
        except ValueError:
            pass
        else:
            require(False, '{} accepted', bad)
        rec.step()
        rec.state(*sc)
    finally:
        sn.close()


# ---------------------------------------------------------------- arrays
def arrays():
    return [alpha.ula(3), alpha.nested(2, 2), alpha.coprime(2, 3, 0.4), alpha.uca(4, 0.6), alpha.ura(2, 3, [0.4, 0.7]),
            alpha.custom('custom3d', [[0.1, 0.2, 0.3], [0.6, -0.1, 0.2], [-0.3, 0.4, -0.5], [0.2, 0.9, 0.7]]),
            alpha.ula(1), alpha.custom('c1', [0.3, -0.2, 1.7], True), alpha.mrla(4, 0.5)]


PERT = [None, 'loc1', 'loc2', 'loc3', 'gain', 'loc+gain']


def gen_arr(c):
    i = c.choose('array', list(range(9)))
    p = c.choose('errors', PERT)
    return i, p, c.choose('coarray', [False, True]), c.choose('show', [None, False, True]), c.choose('scene', SCENES)


def gen_arr_unit(c):
    """Arrays in other units of length."""
    return c.choose('array', list(range(9))), c.choose('errors', [None, 'loc2']), c.choose('coarray', [False, True]), c.choose('show', [False, True]), 'none', \
        c.choose('unit of length', SP.UNITS)


def make_pert(p, n, d):
    from doatools.model import perturbations as P
    out = []
    if p is None:
        return None, None
    L = None
    if 'loc' in p:
        k = {'loc1': 1, 'loc2': 2, 'loc3': 3}.get(p, d)
        L = np.array([[0.07 * math.sin(1.3 * i + 2.1 * q + 0.4) for q in range(k)] for i in range(n)])
        out.append(P.LocationErrors(L.copy()))
    if 'gain' in p:
        out.append(P.GainErrors(np.array([0.1 * (i + 1) for i in range(n)])))
    return out, L


def points(coll, dim3):
    if dim3:
        xs, ys, zs = coll._offsets3d
        return np.array([np.asarray(v, dtype=float).ravel() for v in (xs, ys, zs)]).T
    return np.asarray(coll.get_offsets(), dtype=float)


def diffs(X):
    out = []
    for a in X:
        for b in X:
            d = a - b
            if not any(np.max(np.abs(d - o)) < 1e-6 for o in out):
                out.append(d)
    return np.array(out)


def same_points(X, Y, ordered):
    if X.shape != Y.shape:
        return False
    if ordered:
        return bool(np.allclose(X, Y, atol=1e-9, rtol=0))
    return all(any(np.max(np.abs(x - y)) < 2e-6 for y in Y) for x in X) and all(any(np.max(np.abs(x - y)) < 2e-6 for x in X) for y in Y)


def run_arr(sc, rec):
    i, p, co, show, scene = sc[:5]
    u = sc[5] if len(sc) > 5 else 1.0
    spec = arrays()[i]
    if u != 1.0:
        spec = spec.at(u)
    n, d = spec.loc.shape
    perts, L = make_pert(p, n, d)
    if u != 1.0 and L is not None:
        from doatools.model.perturbations import LocationErrors
        L = L * u
        perts = [LocationErrors(L.copy())]
    a = spec.make(**({} if perts is None else {'perturbations': perts}))
    actual = None
    dim = d
    if L is not None:
        k = max(d, L.shape[1])
        actual = np.zeros((n, k))
        actual[:, :d] += spec.loc
        actual[:, :L.shape[1]] += L
        if show:
            dim = k
    sn = Scene(scene, '3d' if dim == 3 else None)
    try:
        f = PL().plot_coarray if co else PL().plot_array
        kw = {} if show is None else {'show_location_errors': show}
        ax = f(a, sn.ax, **kw) if sn.ax is not None else f(a, **kw)
        rec.step()
        new = sn.done(ax)
        d3 = dim == 3
        require(hasattr(ax, 'zaxis') == d3 or sn.ax is not None, 'projection of the new axes')
        want = [spec.loc] + ([actual] if show and L is not None else [])
        sets = []
        for w in want:
            w = diffs(w / u) if co else w / u
            full = np.zeros((len(w), 3 if d3 else 2))
            full[:, :w.shape[1]] = w
            sets.append(full)
        require(len(new) == len(sets), '{} point sets drawn, expected {}', len(new), len(sets))
        for q, w in enumerate(sets):
            g = points(new[q], d3) / u
            require(same_points(g, w, False) and len(g) == len(w), '{} locations drawn at {} instead of {}', 'actual' if q else 'nominal', g.tolist(), w.tolist())
        txt = [z.get_text() for z in ax.get_legend().get_texts()] if ax.get_legend() else []
        if scene != 'used':
            require(len(txt) == len(sets), 'legend {}', txt)
        if not d3:
            require(ax.get_aspect() in (1.0, 'equal'), 'aspect {}', ax.get_aspect())
        else:
            lims = [ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]
            allp = np.vstack(sets)
            for q in range(3):
                require(min(lims[q]) / u <= allp[:, q].min() + 1e-9 and max(lims[q]) / u >= allp[:, q].max() - 1e-9, 'axis {} range {} hides elements', q, lims[q])
        require(np.allclose(a.element_locations / u, spec.loc / u, atol=1e-12), 'array modified')
        if L is not None:
            require(np.allclose(a.actual_element_locations / u, actual / u, atol=1e-12), 'array modified')
        rec.state(i, p, co, show, u)
    finally:
        sn.close()


# ----------------------------------------------------- several plots, one axes
def gen_seq(c):
    n = c.choose('length', [2, 3])
    ops = [c.choose('op', ['line', 'stem', 'log', 'array', 'other']) for _ in range(n)]
    return ops


def run_seq(ops, rec):
    plt = plt_()
    plt.close('all')
    try:
        ax = plt.figure().add_subplot(111)
        oth = plt.figure().add_subplot(111)
        grid = grid1('deg')
        total = []
        for i, o in enumerate(ops):
            tgt = oth if o == 'other' else ax
            before = {k: Scene.arts(k) for k in (ax, oth)}
            if o == 'array':
                PL().plot_array(alpha.ula(3).make(), tgt)
                want = alpha.ula(3).loc
            else:
                s = spec1('plain', grid.size, i)
                _, r = PL().plot_spectrum(s, grid, tgt, use_log_scale=o == 'log', discrete=o == 'stem')
                x, y, _a = data(r[0])
                require(ref.close(y, s / s.max(), 1e-12), 'plot {}', i)
            rec.step()
            for k in (ax, oth):
                for z in before[k]:
                    require(z in Scene.arts(k), 'earlier plot removed')
                if k is not tgt:
                    require(set(Scene.arts(k)) == set(before[k]), 'other axes changed')
            total.append(o)
            rec.state(total)
    finally:
        plt.close('all')


# --------------------------------------------------- complete rendering works
def gen_draw(c):
    w = c.choose('plot', ['1d', '1d-log', '1d-stem', '1d-stem-log', '2d', '2d-log', 'array1', 'array2', 'array3', 'coarray'])
    return w, c.choose('sources', [False, True])


def run_draw(sc, rec):
    w, src = sc
    plt = plt_()
    plt.close('all')
    try:
        f = plt.figure()
        ax = f.add_subplot(111, **({'projection': '3d'} if w == 'array3' else {}))
        if w.startswith('1d'):
            g = grid1('deg')
            e = places('deg', g, 2 if src else None)
            PL().plot_spectrum(spec1('plain', g.size, 0), g, ax, estimates=e, ground_truth=e, use_log_scale='log' in w, discrete='stem' in w)
        elif w.startswith('2d'):
            g = grid2('deg')
            e = places2(g, 2 if src else None)
            PL().plot_spectrum(spec1('plain', g.size, 0).reshape(g.shape), g, ax, estimates=e, ground_truth=e, use_log_scale='log' in w)
        else:
            spec = arrays()[{'array1': 0, 'array2': 3, 'array3': 5, 'coarray': 4}[w]]
            perts, _ = make_pert('loc+gain' if src else None, *spec.loc.shape)
            a = spec.make(**({} if perts is None else {'perturbations': perts}))
            (PL().plot_coarray if w == 'coarray' else PL().plot_array)(a, ax, src)
        f.canvas.draw()
        rec.step()
        rec.state(*sc)
    finally:
        plt.close('all')


HARNESSES = [Tree('fine 1d', gen_1d_large, run_1d, bound={'quick': 3, 'thorough': None}), Tree('fine 2d', gen_2d_large, run_2d, bound={'quick': 3, 'thorough': None}),
             Tree('spectrum-1d', gen_1d, run_1d, bound={'quick': 3, 'thorough': 4}), Tree('spectrum-2d', gen_2d, run_2d, bound={'quick': 4, 'thorough': None}),
             Tree('rejections', gen_bad, run_bad), Tree('arrays', gen_arr, run_arr, bound={'quick': 3, 'thorough': None}), Tree('units of length', gen_arr_unit, run_arr),
             Tree('sequences', gen_seq, run_seq), Tree('draw', gen_draw, run_draw)]
