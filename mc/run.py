"""CLI:  run.py check <ID> [quick|thorough]      run.py replay <file>"""
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def _known(prop):
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and
    'fixed: property=<id> <commit> <text>' (a fixed entry suppresses nothing)."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + prop \
                    and w[2].startswith('key='):
                out[w[2][4:]] = w[3] if len(w) > 3 else ''
    return out


def load_prop(prop):
    try:
        from mc import setup_lib
        setup_lib.load()
        mod = importlib.import_module('mc.props.' + prop.lower())
    except Exception:
        # The library cannot even be imported: no property of it holds.
        import traceback
        return None, traceback.format_exc()
    return mod, None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    from mc import engine
    mod, err = load_prop(prop)
    known = _known(prop)
    if err:
        path = os.path.join('evidence', 'replays', prop + '-import.json')
        json.dump({'property': prop, 'harness': None, 'message': err},
                  open(os.path.join(VERIF, path), 'w'), indent=1)
        print(err)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    harnesses = mod.HARNESSES
    only = os.environ.get('VERIF_ONLY')
    if only:
        harnesses = [h for h in harnesses if only in h.name]
    engine.register(harnesses)
    budget = float(os.environ.get('VERIF_BUDGET', '700' if tier == 'quick' else '20000'))
    try:
        rep = engine.explore(harnesses, tier, prop, known, budget)
    except Exception:
        # A harness could not even set up its scenarios: the library refuses
        # requests that every scenario is built from.
        import traceback
        err = traceback.format_exc()
        path = os.path.join('evidence', 'replays', prop + '-setup.json')
        json.dump({'property': prop, 'harness': None, 'message': err}, open(os.path.join(VERIF, path), 'w'), indent=1)
        print(err)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    rep.viols.sort(key=lambda v: (len(v['choices']), sum(1 for c in v['choices'] if c), repr(v['index'])))
    expl = ('Every choice vector of each tree harness (within the stated deviation bound, '
            'null = no bound) and every history of each graph harness up to the stated depth '
            'was executed on the real library in lock step with an independent reference '
            'model. states = distinct canonical outcomes observed; transitions = library '
            'operations compared with the model; traces_validated_against_impl = complete '
            'executions of the real code that agreed with the model.')
    if rep.capped:
        expl += ' NOT exhaustive: time cap hit in ' + ', '.join(rep.capped) + '.'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(rep.states), 'transitions': rep.transitions,
            'traces_validated_against_impl': rep.traces - len(rep.viols),
            'samples': rep.samples[:12], 'exhaustive': not rep.capped and not rep.viols,
            'explanation': expl, 'harnesses': rep.per_harness,
            'outside_quantifier': rep.skipped, 'counters': rep.counters,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(rep.viols), 'wall_s': round(time.time() - t0, 3),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for ph in rep.per_harness if os.environ.get('VERIF_VERBOSE') or len(rep.per_harness) <= 6 else []:
        print('  ' + json.dumps({k: v for k, v in ph.items() if k != 'note'}))
    for k, v in sorted(rep.findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, known.get(k) or v))
    if rep.viols:
        for n, v in enumerate(rep.viols[:3]):
            path = os.path.join('evidence', 'replays', '%s-%d.json' % (prop, n))
            json.dump(dict(property=prop, tier=tier, **v), open(os.path.join(VERIF, path), 'w'), indent=1,
                      default=str)
            print('-- %s choices=%s\n   %s\n%s' % (v['harness'], v['choices'], v['scenario'][:600], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property %s held: %d executions, %d states, %d transitions, %.1f s%s'
          % (prop, rep.traces, len(rep.states), rep.transitions, time.time() - t0,
             ' (CAPPED: %s)' % rep.capped if rep.capped else ''))
    return 0


def replay(path):
    """Re-executes one recorded execution twice without the explorer."""
    from mc import engine
    d = json.load(open(path))
    prop = d['property']
    mod, err = load_prop(prop)
    if err:
        print(err)
        return 1
    if d['harness'] is None:
        return check(prop, d.get('tier', 'quick'))
    h = [x for x in mod.HARNESSES if x.name == d['harness']][0]
    msgs = []
    for _ in range(2):
        rec = engine.Recorder(prop, _known(prop))
        rec.tier = d.get('tier', 'quick')
        if h.kind == 'tree':
            c = engine.Chooser(d['choices'])
            sc = engine._with_tier(h.gen, d.get('tier', 'quick'))(c)
            res, msg = engine._guarded(h.run, sc, rec)
        else:
            sc = d['choices']
            res, msg = engine._guarded(h.run, [tuple(e) if isinstance(e, list) else e for e in d['choices']], rec)
        msgs.append(msg)
    print('scenario:', sc)
    print('first  :', msgs[0])
    print('second :', 'identical' if msgs[0] == msgs[1] else msgs[1])
    return 1 if msgs[0] else 0


if __name__ == '__main__':
    if sys.argv[1] == 'check':
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(sys.argv[2], tier))
    elif sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit('usage')
