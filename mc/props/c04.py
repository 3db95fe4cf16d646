"""C04 derived arrays are independent: breadth-first search over histories."""
import itertools
import math

import numpy as np

from .. import alpha, ref
from ..engine import Graph, Tree, Violation, require
from . import c02
from .c02 import element, response

ASSUMPTIONS = ['at most four live arrays per history; parameters from two alphabets per perturbation type']

L, G, P, C = alpha.PTYPES
BASES = {
    'ula': lambda: alpha.ula(3, 0.5),
    'ura': lambda: alpha.ura(2, 2, [0.4, 0.7]),
    'custom3d': lambda: alpha.custom('cust', [[0.1, 0.2, 0.3], [0.6, -0.1, 0.2], [-0.3, 0.4, -0.5]]),
}
ELEMENTS = {'element': 1, 'vector': 2}          # outputs of a direction-dependent sensor
BASES.update({'element': lambda: alpha.uca(4, 0.7), 'vector': lambda: alpha.nested(1, 2, 0.5)})
MAX_LIVE = 4
ATTRIBUTES = ('element_indices', 'bases', 'd0', 'shape', 'radius', 'coprime_pair', 'mode', 'n1', 'n2', 'size', 'output_size', 'ndim')
SRC = [0.3, -0.8]


class Model:
    """name, ordered perturbations {type: (params, known)}."""

    def __init__(self, name, perts):
        self.name = name
        self.perts = dict(perts)

    def merged(self, new, name):
        m = Model(self.name if name is None else name, self.perts)
        for t, v in new:
            m.perts[t] = v          # replaces in place, new types go last
        return m


def attributes(a):
    return {x: np.asarray(getattr(a, x)).tolist() for x in ATTRIBUTES if hasattr(a, x)}


def events(n_live, thorough, vector=False):
    ev = []
    sets = [(G,), (L,), (C, P), (L, G)] + ([(P,), (C,), (G, C, L, P)] if thorough else [])
    if vector:
        sets = [(L,)]
    for i in range(n_live):
        if n_live < MAX_LIVE:
            for s in sets:
                for v in (0, 1):
                    ev.append(('pert', i, s, v, 'dict' if (len(s) + v) % 2 else 'list', 'new%d' % v if len(s) == 1 else None))
            ev.append(('pert', i, (), 0, 'list', None))
            ev.append(('free', i, None))
            ev.append(('free', i, 'clean'))
        ev.append(('reject', i, 'size', 0))
        ev.append(('reject', i, 'size2', 0))
        ev.append(('mutate', i, 'list'))
        ev.append(('mutate', i, 'loc'))
        ev.append(('steer', i))
    return ev


def check_live(spec, live, first, rec, outputs=0, attr=None):
    src = alpha.SourceSpec('ff1d', SRC, 'rad')
    s = src.make()
    for i, (a, m) in enumerate(live):
        require(a.name == m.name, 'array {}: name {!r} expected {!r}', i, a.name, m.name)
        require(ref.close(a.element_locations, spec.loc, 1e-12), 'array {}: nominal locations {}', i, a.element_locations)
        require(a.is_perturbed == bool(m.perts), 'array {}: is_perturbed {}', i, a.is_perturbed)
        ps = a.perturbations
        require([type(p) for p in ps] == [alpha.pert_class(t) for t in m.perts],
                'array {}: perturbations {} expected {}', i, [type(p).__name__ for p in ps], list(m.perts))
        for p, (t, (v, k)) in zip(ps, m.perts.items()):
            require(p.is_known == k and ref.close(p.params, v, 0), 'array {}: parameters of {} changed', i, t)
        for t in alpha.PTYPES:
            cls = alpha.pert_class(t)
            require(a.has_perturbation(cls) == (t in m.perts), 'array {}: has_perturbation({})', i, t)
            if t in m.perts:
                require(a.is_perturbation_known(cls) == m.perts[t][1], 'array {}: known flag of {}', i, t)
                require(ref.close(a.get_perturbation_params(cls), m.perts[t][0], 0), 'array {}: params of {}', i, t)
        act = spec.loc
        if L in m.perts:
            act = ref.add_location_errors(act, m.perts[L][0])
        require(ref.close(a.actual_element_locations, act, 1e-12) and a.actual_ndim == act.shape[1],
                'array {}: actual locations {} expected {}', i, a.actual_element_locations, act)
        require(type(a) is type(first) and a.size == spec.size and a.element is first.element, 'array {}: kind changed', i)
        require(attr is None or attributes(a) == attr, 'array {}: attributes {} expected {}', i, attributes(a), attr)
        if spec.grid is not None:
            require(np.array_equal(a.element_indices, np.array(spec.grid['indices'])), 'array {}: indices lost', i)
            require(ref.close(a.d0, np.array(spec.grid['d0'], float), 1e-12), 'array {}: d0 lost', i)
        for filt in ('all', 'known', 'none'):
            use = [(t, v) for t, (v, k) in m.perts.items() if filt == 'all' or (filt == 'known' and k)]
            want = ref.steering(spec.loc, 'ff1d', SRC, 'rad', 1.0, use, response(outputs) if outputs else None).reshape(-1, len(SRC))
            require(ref.close(a.steering_matrix(s, 1.0, perturbations=filt), want, 1e-9), 'array {}: steering matrix ({})', i, filt)
            rec.step()


def make_run(base):
    def run(history, rec):
        spec = BASES[base]()
        init = history[0] if history else None
        thorough = getattr(rec, 'tier', 'quick') == 'thorough'
        if not history:
            # three ways of creating the first array
            return ('start',), [('init', 'plain'), ('init', 'list'), ('init', 'dict')]
        kw, perts = {}, {}
        outputs = ELEMENTS.get(base, 0)
        if outputs:
            elem = element(outputs)
            kw['element'] = elem
        if outputs > 1:
            if init[1] != 'plain':
                perts = {L: (alpha.pert_params(L, spec.size, 2), True)}
                kw['perturbations'] = {t: (v.copy(), k) for t, (v, k) in perts.items()} if init[1] == 'dict' else [alpha.pert_class(L)(perts[L][0].copy(), True)]
        elif init[1] == 'list':
            perts = {P: (alpha.pert_params(P, spec.size, 2), True)}
            kw['perturbations'] = [alpha.pert_class(P)(perts[P][0].copy(), True)]
        elif init[1] == 'dict':
            perts = {G: (alpha.pert_params(G, spec.size, 2), False), L: (alpha.pert_params(L, spec.size, 2), True)}
            kw['perturbations'] = {t: (v.copy(), k) for t, (v, k) in perts.items()}
        given = kw.get('perturbations')
        # the caller fills the same two containers again for every request
        box = {'dict': given if isinstance(given, dict) else {}, 'list': given if isinstance(given, list) else []}
        a0 = spec.make(**kw)
        require(not outputs or a0.element is elem, 'element {} expected {}', a0.element, kw.get('element'))
        attr = attributes(a0)
        live = [(a0, Model(a0.name, perts))]
        if given is not None:
            given.clear()                 # the caller reuses its container
        for e in history[1:]:
            a, m = live[e[1]]
            if e[0] == 'pert':
                _, _, types, v, how, name = e
                new = [(t, (alpha.pert_params(t, spec.size, v), bool((v + j) % 2))) for j, t in enumerate(types)]
                arg = box[how]
                if how == 'dict':
                    arg.update({t: (p.copy(), k) for t, (p, k) in new})
                else:
                    arg.extend(alpha.pert_class(t)(p.copy(), k) for t, (p, k) in new)
                b = a.get_perturbed_copy(arg) if name is None else a.get_perturbed_copy(arg, name)
                arg.clear()
                require(b is not a, 'the copy is the array itself')
                live.append((b, m.merged(new, name)))
            elif e[0] == 'free':
                b = a.get_perturbation_free_copy() if e[2] is None else a.get_perturbation_free_copy(e[2])
                require(b is not a, 'the copy is the array itself')
                live.append((b, Model(m.name if e[2] is None else e[2], {})))
            elif e[0] == 'reject':
                good = alpha.pert_class(P)(alpha.pert_params(P, spec.size, 1), True)
                bad = alpha.pert_class(G)(alpha.pert_params(G, spec.size + 1, 0), True)
                try:
                    a.get_perturbed_copy([good, bad] if e[2] == 'size' else [alpha.pert_class(L)(np.zeros((spec.size - 1, 1)))])
                except RuntimeError:
                    pass
                else:
                    raise Violation('perturbation of the wrong size accepted')
            elif e[0] == 'mutate':
                if e[2] == 'list':
                    ps = a.perturbations
                    ps.append(None)
                    del ps[:1]
                else:
                    x = a.actual_element_locations
                    x += 5
                    x = a.element_locations
                    x += 5
            elif e[0] == 'steer':
                A = a.steering_matrix(alpha.SourceSpec('ff1d', SRC, 'rad').make(), 1.0)
                A *= 0
            rec.step()
            check_live(spec, live, a0, rec, outputs, attr)
        if len(history) == 1:
            check_live(spec, live, a0, rec, outputs, attr)
        state = (base, [(m.name, [(t, v, k) for t, (v, k) in m.perts.items()]) for _, m in live])
        # equal arrays derived in different ways may share objects differently
        state = state + (tuple((e[0], e[1], e[4] if e[0] == 'pert' else '') for e in history[1:] if e[0] in ('pert', 'free')),)
        # operations that must not change anything are explored from every state
        # once per history length: keep them as distinct states
        if len(history) > 1 and history[-1][0] in ('reject', 'mutate', 'steer'):
            state = state + (history[-1],)
            if history[-2][0] in ('reject', 'mutate', 'steer'):
                state = state + (history[-2],)
        return state, events(len(live), thorough, outputs > 1)
    return run


# construction-time rejections leave the other arrays alone
def gen_dup(c):
    return c.choose('base', sorted(b for b in BASES if b not in ELEMENTS)), c.choose('types', alpha.PTYPES), c.choose('what', ['dup', 'size', 'vector'])


def run_dup(sc, rec):
    base, t, what = sc
    spec = BASES[base]()
    first = spec.make()
    cls = alpha.pert_class(t)
    n = spec.size
    kw = {}
    if what == 'dup':
        ps = [cls(alpha.pert_params(t, n, 0)), alpha.pert_class(P if t != P else G)(alpha.pert_params(P, n, 0)), cls(alpha.pert_params(t, n, 1))]
    elif what == 'size':
        ps = [cls(alpha.pert_params(t, n + 1, 0))]
    else:
        ps = [cls(alpha.pert_params(t, n, 0))]
        kw['element'] = element(2)
    ok = what == 'vector' and t == L
    try:
        spec.make(perturbations=ps, **kw)
        res = True
    except RuntimeError:
        res = False
    require(res == ok, '{} {}: accepted={}', t, what, res)
    if what == 'vector':
        a = spec.make(element=element(2))
        try:
            b = a.get_perturbed_copy(ps)
            require(ok, '{}: vector elements accepted in a copy', t)
            require(b.has_perturbation(cls) and not a.has_perturbation(cls), 'copy leaked')
        except RuntimeError:
            require(not ok, '{}: rejected', t)
        require(not a.is_perturbed, 'rejected copy changed the array')
    elif what == 'dup':
        # in a copy, a later entry of the same type replaces the earlier one
        b = first.get_perturbed_copy(ps)
        require(ref.close(b.get_perturbation_params(cls), alpha.pert_params(t, n, 1), 0), 'later perturbation does not replace')
    require(not first.is_perturbed and not spec.make().is_perturbed, 'another array is affected')
    rec.step(3)
    rec.state(base, t, what)


# long chains and wide families of copies of larger arrays
def gen_fam(c):
    sp = c.choose('array', [a for a in alpha.large_arrays(33) if a.name[:3] in ('ULA', 'Nes', 'CoP', 'UCA', 'URA', 'cus', 'gri')])
    return sp, c.choose('shape', ['chain', 'star', 'comb']), c.choose('types', [(G,), (L,), (C,), (P, L), (G, C, P), (L, G, P, C)]), c.choose('start', ['plain', 'perturbed', 'element'])


def run_fam(sc, rec):
    sp, shape, types, start = sc
    n = sp.size
    perts = {}
    kw = {}
    if start == 'element':
        kw['element'] = element(1)
    if start != 'plain':
        perts = {G: (alpha.pert_params(G, n, 2), False), L: (alpha.pert_params(L, n, 2), True)}
        kw['perturbations'] = {t: (v.copy(), k) for t, (v, k) in perts.items()}
    a = sp.make(**kw)
    live = [(a, Model(a.name, perts))]
    for i in range(9):
        j = {'chain': i, 'star': 0, 'comb': i if i % 2 else max(0, i - 1)}[shape]
        b, m = live[j]
        t = types[i % len(types)]
        if i == 5:
            live.append((b.get_perturbation_free_copy(), Model(m.name, {})))
            continue
        v = (0.5 + 0.1 * i) * alpha.pert_params(t, n, i) if t != C else alpha.pert_params(t, n, i)
        new = [(t, (v, i % 2 == 0))]
        name = 'copy %d' % i if i % 3 == 0 else None
        arg = {t: (v.copy(), i % 2 == 0)} if i % 2 else [alpha.pert_class(t)(v.copy(), i % 2 == 0)]
        live.append((b.get_perturbed_copy(arg) if name is None else b.get_perturbed_copy(arg, name), m.merged(new, name)))
        rec.step()
    src = alpha.SourceSpec('ff1d', SRC, 'rad').make()
    attr = attributes(a)
    for i, (b, m) in enumerate(live):
        require(b.name == m.name and b.size == n and type(b) is type(a), 'array {}: name {!r} expected {!r}', i, b.name, m.name)
        require([type(p) for p in b.perturbations] == [alpha.pert_class(t) for t in m.perts], 'array {}: perturbations', i)
        for p, (t, (v, k)) in zip(b.perturbations, m.perts.items()):
            require(p.is_known == k and ref.close(p.params, v, 0), 'array {}: parameters of {} changed', i, t)
        require(b.element is a.element and attributes(b) == attr, 'array {}: element or attributes changed', i)
        act = ref.add_location_errors(sp.loc, m.perts[L][0]) if L in m.perts else sp.loc
        require(ref.close(b.element_locations, sp.loc, 1e-12) and ref.close(b.actual_element_locations, act, 1e-12), 'array {}: locations', i)
        for filt in ('all', 'known'):
            use = [(t, v) for t, (v, k) in m.perts.items() if filt == 'all' or k]
            require(ref.close(b.steering_matrix(src, 1.0, perturbations=filt), ref.steering(sp.loc, 'ff1d', SRC, 'rad', 1.0, use, response(1) if start == 'element' else None)[0], 1e-9), 'array {}: steering matrix ({})', i, filt)
            rec.step()
    rec.state(*sc)


# ------------------------------ perturbation types defined by the user
def gen_user(c):
    start = c.choose('start', [()] + [(t,) for t in c02.USER_TYPES] + [o for o in itertools.permutations(c02.USER_TYPES, 2)])
    ops = [(t, k) for t in c02.USER_TYPES for k in (False, True)] + [('free', False), ('reject', False)]
    return c.choose('array', c02.USER_ARRAYS[1:] if c.thorough else c02.USER_ARRAYS[1:2]), start, c.choose('first', ops), c.choose('of', [0, 1]), c.choose('second', ops)


def run_user(sc, rec):
    from doatools.model.perturbations import ArrayPerturbation

    class Never(ArrayPerturbation):
        def is_applicable_to(self, array):
            return False, 'never'
    sp, start, first, of, second = sc
    types, n = c02.user_types(), sp.size
    a = sp.make(perturbations=[types[t][0](n, i == 0) for i, t in enumerate(start)])
    live = [(a, {t: i == 0 for i, t in enumerate(start)})]
    cls = {t: type(types[t][0](n, False)) for t in types}
    for (t, k), j in ((first, 0), (second, min(of, len(live)))):
        b, m = live[min(j, len(live) - 1)]
        if t == 'free':
            live.append((b.get_perturbation_free_copy(), {}))
        elif t == 'reject':
            for arg in ([Never(None)], [types['taper'][0](n, True), Never(None)]):
                try:
                    b.get_perturbed_copy(arg)
                except RuntimeError:
                    pass
                else:
                    require(False, 'inapplicable perturbation accepted')
        else:
            new = dict(m)
            new[t] = k
            live.append((b.get_perturbed_copy([types[t][0](n, k)]), new))
        rec.step()
    src = alpha.SourceSpec('ff1d', SRC, 'rad').make()
    for i, (b, m) in enumerate(live):
        require([type(p) for p in b.perturbations] == [cls[t] for t in m], 'array {} has {} expected {}', i, b.perturbations, list(m))
        require([bool(p.is_known) for p in b.perturbations] == list(m.values()), 'array {}: known flags', i)
        for t in types:
            require(b.has_perturbation(cls[t]) == (t in m), 'array {}: has_perturbation({})', i, t)
        for filt in ('all', 'known'):
            loc = sp.loc
            use = [types[t] for t, k in m.items() if filt == 'all' or k]
            for _, par, f, _ in use:
                loc = f(loc, par(n))
            A = ref.steering(loc, 'ff1d', SRC, 'rad', 1.0, [], None)[0]
            for _, par, _, f in use:
                A = f(A, par(n))
            require(ref.close(b.steering_matrix(src, 1.0, perturbations=filt), A, 1e-9), 'array {}: steering matrix ({})', i, filt)
            rec.step()
    rec.state(*sc[1:])


HARNESSES = [Tree('user types', gen_user, run_user), Tree('families', gen_fam, run_fam), Tree('rejected', gen_dup, run_dup)] + [
    Graph('copies-' + b, make_run(b), {'quick': 4 if b == 'ura' else 3, 'thorough': 5}) for b in BASES]
