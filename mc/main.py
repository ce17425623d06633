"""Runs the check for one property: explores, reports, writes evidence."""
import importlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.environ.get('MC_EVIDENCE_DIR', 'evidence')


def load(pid):
    from . import hrng
    hrng.install()
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import warnings
    warnings.simplefilter('ignore')
    import fauxdoc
    want = os.path.realpath(os.path.join(REPO, 'src', 'fauxdoc'))
    got = os.path.realpath(os.path.dirname(fauxdoc.__file__))
    if got != want:
        raise SystemExit('fauxdoc was imported from %s, not %s' % (got, want))
    return importlib.import_module('mc.props.' + pid.lower())


def known_findings(pid):
    """Keys listed as known for this property -> description."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out[d['key']] = d['what']
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    replay = only = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = rest.pop(0)
        elif a == '--only':
            only = rest.pop(0)
        else:
            raise SystemExit('unknown argument ' + a)
    t0 = time.time()
    try:
        mod = load(pid)
    except ImportError as e:
        # fauxdoc itself does not import: nothing can hold.
        if 'mc.' in str(e):
            raise
        path = os.path.join(EVIDENCE, '%s-import.json' % pid)
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({'property': pid, 'error': str(e)}, f)
        print('the code under test can not be imported: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    from . import explore, hrng
    known = known_findings(pid)
    scenarios = mod.scenarios(tier, seed)
    if only:
        scenarios = [s for s in scenarios if re.search(only, s.name)]
    if replay:
        return do_replay(pid, replay, scenarios, tier, seed)
    results, walls, errors = explore.run_all(
        scenarios, tier, seed, frozenset(known))
    viol = []
    seen_known = {}
    per = []
    tot = explore.Stats()
    for sc, st, wall in zip(scenarios, results, walls):
        if sc.post is not None and not errors:
            for msg in sc.post(st) or ():
                st.violations.append((msg, None, [], ['(aggregated over all '
                                                      'executions)']))
        for v in st.violations:
            if v[1] is not None and v[1] in known:
                seen_known[v[1]] = v
            else:
                viol.append((sc, v))
        per.append({
            'scenario': sc.name, 'executions': st.executions,
            'completed': st.completed, 'pruned_as_visited': st.pruned,
            'ended_at_horizon': st.horizon_ends, 'states': len(st.states),
            'transitions': st.transitions, 'max_choices': st.max_depth,
            'distinct_outcomes': len(st.outcomes),
            'replayed_for_determinism': st.replayed,
            'deviation_bound': sc.dev_bound,
            'exhaustive_within_bounds': st.exhaustive and not st.caps,
            'caps': st.caps, 'horizons': st.horizons,
            'longest_execution_s': round(st.longest, 2),
            'cpu_s': round(wall, 2)})
        states = st.states
        st.states = {(sc.name, s) for s in states}
        tot.absorb(st)
    os.makedirs(os.path.join(VERIF, EVIDENCE), exist_ok=True)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': len(tot.states),
            'transitions': tot.transitions,
            'traces_validated_against_impl': tot.completed,
            'samples': tot.samples[:6] or ['(no execution completed)'],
            'executions': tot.executions,
            'distinct_outcomes': sum(p['distinct_outcomes'] for p in per),
            'exhaustive': all(p['exhaustive_within_bounds'] for p in per),
            'scenarios': per,
            'explanation': (mod.__doc__ or '').strip() + (
                ' Every execution runs the real code of /repo directly (no '
                'separate model is trusted): "states" are distinct observed '
                'states of implementation plus reference model, '
                '"transitions" operations executed on the implementation, '
                '"traces_validated_against_impl" executions carried out to '
                'their end in lockstep with the reference.'),
        },
        'assumptions': [
            'CPython %s; the library reaches randomness only through '
            'random.Random (C08 checks that it does)' %
            sys.version.split()[0]],
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    with open(os.path.join(VERIF, EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for p in per:
        print('%-34s exec %7d  states %7d  trans %8d  outcomes %5d  '
              '%6.1fs%s' % (
                  p['scenario'], p['executions'], p['states'],
                  p['transitions'], p['distinct_outcomes'], p['cpu_s'],
                  '' if p['exhaustive_within_bounds'] else '  capped %s' %
                  (p['caps'] or '')))
    for k in sorted(known):
        if k in seen_known or getattr(mod, 'ALWAYS_LIST_KNOWN', False):
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        else:
            print('note: known finding %r was not seen in this run' % k)
    if errors:
        for name, e in errors:
            print('ERROR in scenario %s: %s' % (name, e))
        if not viol:
            return 2
    for n, (sc, (msg, key, choices, log)) in enumerate(viol[:10]):
        path = os.path.join(EVIDENCE, '%s-violation-%d.json' % (pid, n))
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({'property': pid, 'scenario': sc.name, 'tier': tier,
                       'seed': seed, 'message': msg, 'key': key,
                       'choices': choices, 'steps': log,
                       'replay_cmd': './check %s --replay %s' % (pid, path)},
                      f, indent=1)
        print('--- %s: %s' % (sc.name, msg))
        for line in log[-12:]:
            print('      ' + line[:300])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%s %s: %d executions, %d states, %d transitions, %d violations, '
          '%.1f s' % (pid, tier, tot.executions, len(tot.states),
                      tot.transitions, len(viol), wall))
    return 1 if viol else 0


def do_replay(pid, path, scenarios, tier, seed):
    from . import explore
    d = json.load(open(os.path.join(VERIF, path)
                       if not os.path.isabs(path) else path))
    if d['tier'] != tier or d['seed'] != seed:
        env = dict(os.environ, VERIF_TIER=d['tier'], VERIF_SEED=str(d['seed']))
        return subprocess.call([sys.executable, '-m', 'mc.main', pid,
                                '--replay', path], env=env, cwd=VERIF)
    sc = [s for s in scenarios if s.name == d['scenario']][0]
    ctx = explore.Ctx(d['choices'], [], {}, explore.Stats(), tier=tier,
                      seed=seed)
    v = None
    try:
        v = explore.run_once(sc, ctx)
    except (explore.Pruned, explore.Horizon) as e:
        print('ended: %r' % e)
    for line in ctx.rendered():
        print('  ' + line)
    if v is None:
        print('no violation in this replay')
        return 0
    print('replayed: ' + v.msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
