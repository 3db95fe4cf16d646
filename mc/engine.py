"""Bounded-exhaustive explorer used by every check.

Two exploration engines share one reporting layer:

* ``Tree``   - stateless exploration.  ``gen(c)`` draws a scenario by calling
  ``c.choose(name, options)``; option 0 is the default answer.  *Every* choice
  vector is enumerated (optionally: every vector with at most ``bound``
  departures from the defaults), and ``run(scenario, rec)`` executes the real
  library on it in lock step with a reference model.
* ``Graph``  - explicit-state breadth-first search over operation histories.
  A node is the history that reaches it; ``run(history, rec)`` rebuilds fresh
  real objects, replays the history on the library and on the reference model,
  compares both after every step and returns ``(canonical_state, enabled
  events)``.  Histories that reach a canonical state seen before are not
  expanded again.

Nothing is sampled: a run that ends without reaching its cap has executed the
complete set.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(1, min(8, os.cpu_count() or 1))
SCENARIO_TIMEOUT = 80       # CPU seconds; an execution takes well below a second, a few at most
WALL_TIMEOUT = 300          # an execution that waits for something


class Violation(Exception):
    """The library disagrees with the property."""


class Hang(BaseException):
    pass


class OutOfRange(Exception):
    pass


class Skip(Exception):
    """The scenario lies outside the quantifier (e.g. two tied peaks)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


# --------------------------------------------------------------------------
# Choices
# --------------------------------------------------------------------------
class Chooser:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.trace = []          # (name, index, n_options)
        self.bound = bound
        self.cost = 0

    def choose(self, name, options):
        options = list(options)
        n = len(options)
        i = len(self.trace)
        if i < len(self.prefix):
            idx = self.prefix[i]
            if idx >= n:
                raise OutOfRange('choice %s: index %d of %d options' % (name, idx, n))
        else:
            idx = 0
        if idx:
            self.cost += 1
        self.trace.append((name, idx, n))
        return options[idx]

    def vector(self):
        return [t[1] for t in self.trace]


def enumerate_scenarios(gen, bound=None):
    """Yields (choice vector, scenario) for every choice vector of ``gen``
    with at most ``bound`` non-default choices (all, if bound is None), fewest
    leading deviations first within the lexicographic order."""
    prefix = []
    while True:
        c = Chooser(prefix)
        try:
            sc = gen(c)
            ok = True
        except Skip:
            sc, ok = None, False
        if ok:
            yield c.vector(), sc
        tr = c.trace
        vec = c.vector()
        # advance: rightmost position that may be increased
        j = len(tr) - 1
        while j >= 0:
            if tr[j][1] + 1 < tr[j][2]:
                if bound is None:
                    break
                cost = sum(1 for x in vec[:j] if x)
                if cost + 1 <= bound:
                    break
            j -= 1
        if j < 0:
            return
        prefix = vec[:j] + [vec[j] + 1]


# --------------------------------------------------------------------------
# Canonical digests (states)
# --------------------------------------------------------------------------
def canon(x):
    """A canonical, rounding-tolerant serialisation of an observed outcome."""
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if x != x:
            return 'nan'
        if x in (float('inf'), float('-inf')):
            return str(x)
        r = round(float(x), 6)
        return r + 0.0 if r else 0.0
    if isinstance(x, (complex, np.complexfloating)):
        return (canon(float(x.real)), canon(float(x.imag)))
    return repr(x) if not isinstance(x, str) else x


def digest(x):
    return hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).digest()


# --------------------------------------------------------------------------
# Recorder handed to every execution
# --------------------------------------------------------------------------
class Recorder:
    def __init__(self, prop=None, known=()):
        self.prop = prop
        self.known = set(known)
        self.states = set()
        self.transitions = 0
        self.findings = {}
        self.counters = {}

    def step(self, n=1):
        """One library operation executed and compared with the model."""
        self.transitions += n

    def state(self, *x):
        self.states.add(digest(x))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def finding(self, key, detail):
        """A defect that may be listed as known; otherwise a violation."""
        if key in self.known:
            self.findings.setdefault(key, detail)
        else:
            raise Violation('%s [finding key: %s]' % (detail, key))


# --------------------------------------------------------------------------
# Harness kinds
# --------------------------------------------------------------------------
class Tree:
    kind = 'tree'

    def __init__(self, name, gen, run, bound=None, note='', weight=1):
        self.name = name
        self.gen = gen
        self.run = run
        self.bound = bound          # None or {'quick': b, 'thorough': b}
        self.note = note

    def get_bound(self, tier):
        if isinstance(self.bound, dict):
            return self.bound[tier]
        return self.bound


class Graph:
    kind = 'graph'

    def __init__(self, name, run, depth, note=''):
        self.name = name
        self.run = run              # run(history, rec) -> (state, events)
        self.depth = depth          # {'quick': d, 'thorough': d}
        self.note = note


def _alarm(signum, frame):
    raise Hang()


def _guarded(fn, *a):
    """Runs one execution; returns None or a violation message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, SCENARIO_TIMEOUT)
    signal.alarm(WALL_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return fn(*a), None
    except Skip as e:
        return 'skip', None
    except Violation as e:
        return None, str(e)
    except Hang:
        return None, 'did not terminate within %d s of CPU time' % SCENARIO_TIMEOUT
    except MemoryError:
        return None, 'memory exhausted'
    except Exception:
        tb = traceback.format_exc(limit=-6)
        return None, 'unexpected exception\n' + tb
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def _tree_worker(args):
    h, tier, wid, nw, deadline, prop, known, max_viol = args
    from . import setup_lib
    setup_lib.reset()
    rec = Recorder(prop, known)
    ran = skipped = total = 0
    viols = []
    capped = False
    sample = []
    for i, (vec, sc) in enumerate(enumerate_scenarios(_with_tier(h.gen, tier), h.get_bound(tier))):
        total += 1
        if i % nw != wid:
            continue
        if time.time() > deadline:
            capped = True
            break
        res, msg = _guarded(h.run, sc, rec)
        if res == 'skip':
            skipped += 1
            continue
        ran += 1
        if len(sample) < 2 and ran in (1, 40):
            sample.append({'harness': h.name, 'choices': vec, 'scenario': repr(sc)[:700]})
        if msg is not None:
            viols.append({'harness': h.name, 'choices': vec, 'scenario': repr(sc)[:2000],
                          'message': msg[:4000], 'index': i})
            if len(viols) >= max_viol or msg.startswith('did not terminate'):
                break
    return dict(ran=ran, skipped=skipped, total=total, viols=viols, capped=capped,
                states=rec.states, transitions=rec.transitions, sample=sample,
                findings=rec.findings, counters=rec.counters)


def _with_tier(gen, tier):
    def g(c):
        c.tier = tier
        c.thorough = (tier == 'thorough')
        return gen(c)
    return g


def _graph_task(args):
    h, hist, prop, known, tier = args
    rec = Recorder(prop, known)
    rec.tier = tier
    res, msg = _guarded(h.run, hist, rec)
    return hist, (res if msg is None else None), msg, rec


class Report:
    def __init__(self):
        self.states = set()
        self.graph_states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.viols = []
        self.samples = []
        self.findings = {}
        self.counters = {}
        self.per_harness = []
        self.capped = []


def _pool():
    ctx = mp.get_context('fork')
    return ctx.Pool(NPROC, initializer=_limit)


def _limit():
    """Runaway allocations of the code under test become MemoryError."""
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ImportError, ValueError, OSError):
        pass


def explore(harnesses, tier, prop, known, budget, max_viol=3):
    rep = Report()
    t0 = time.time()
    deadline = t0 + budget
    pool = _pool()
    try:
        for h in harnesses:
            th = time.time()
            if h.kind == 'tree':
                outs = pool.map(_tree_worker,
                                [(_Ref(h), tier, w, NPROC, deadline, prop, known, max_viol)
                                 for w in range(NPROC)], chunksize=1)
                st = set()
                tr = sum(o['transitions'] for o in outs)
                ran = sum(o['ran'] for o in outs)
                sk = sum(o['skipped'] for o in outs)
                for o in outs:
                    st |= o['states']
                    rep.viols += o['viols']
                    rep.findings.update(o['findings'])
                    for k, v in o['counters'].items():
                        rep.counters[h.name + '.' + k] = rep.counters.get(h.name + '.' + k, 0) + v
                if any(o['capped'] for o in outs):
                    rep.capped.append(h.name)
                rep.samples += outs[0]['sample']
                rep.states |= {h.name.encode() + s for s in st}
                rep.transitions += tr
                rep.traces += ran
                rep.skipped += sk
                rep.per_harness.append(dict(harness=h.name, executions=ran, skipped=sk,
                                            distinct_outcomes=len(st), transitions=tr,
                                            deviation_bound=h.get_bound(tier),
                                            wall_s=round(time.time() - th, 2), note=h.note))
            else:
                seen = {}
                maxd = h.depth[tier]
                frontier = [()]
                execs = 0
                trans = 0
                depth_done = 0
                capped = False
                st = set()
                while frontier and not capped:
                    nxt = []
                    for hist, res, msg, rec in pool.imap_unordered(
                            _graph_task, [(_Ref(h), list(x), prop, known, tier) for x in frontier],
                            chunksize=max(1, len(frontier) // (NPROC * 8))):
                        execs += 1
                        trans += rec.transitions
                        st |= rec.states
                        rep.findings.update(rec.findings)
                        for k, v in rec.counters.items():
                            rep.counters[h.name + '.' + k] = rep.counters.get(h.name + '.' + k, 0) + v
                        if msg is not None:
                            rep.viols.append({'harness': h.name, 'choices': hist,
                                              'scenario': 'history ' + repr(hist)[:2000],
                                              'message': msg[:4000], 'index': (len(hist), repr(hist))})
                            continue
                        if res == 'skip':
                            continue
                        state, events = res
                        nxt.append((hist, digest(state), events))
                    # deterministic order whatever the worker timing
                    nxt.sort(key=lambda t: repr(t[0]))
                    frontier = []
                    for hist, d, events in nxt:
                        if d in seen:
                            continue
                        seen[d] = len(hist)
                        if len(hist) < maxd:
                            for e in events:
                                frontier.append(tuple(hist) + (e,))
                    depth_done += 1
                    if rep.viols:
                        break
                    if time.time() > deadline:
                        capped = True
                if capped:
                    rep.capped.append(h.name)
                rep.states |= {h.name.encode() + s for s in st}
                rep.states |= {h.name.encode() + b'/g' + s for s in seen}
                rep.transitions += trans
                rep.traces += execs
                rep.samples.append({'harness': h.name, 'kind': 'graph', 'max_depth': maxd})
                rep.per_harness.append(dict(harness=h.name, executions=execs, states=len(seen),
                                            transitions=trans, max_depth=maxd,
                                            wall_s=round(time.time() - th, 2), note=h.note))
            if rep.viols:
                break
            if time.time() > deadline:
                rest = harnesses[harnesses.index(h) + 1:]
                rep.capped += [x.name for x in rest]
                break
    finally:
        pool.terminate()
        pool.join()
    rep.wall = time.time() - t0
    return rep


class _Ref:
    """Picklable reference to a harness (harness functions are closures)."""
    registry = {}

    def __init__(self, h):
        self.key = h.name
        _Ref.registry[h.name] = h

    def __getattr__(self, item):
        if item in ('key', 'registry') or item.startswith('__'):
            raise AttributeError(item)
        return getattr(_Ref.registry[self.key], item)


def register(harnesses):
    for h in harnesses:
        assert h.name not in _Ref.registry, h.name
        _Ref.registry[h.name] = h
