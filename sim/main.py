"""python -m sim.main <property>            seeded search for one property (exit 0 / 1 with VIOLATION line / 2)
   python -m sim.main --replay <file>        re-executes one replay file (exit 1 if it reproduces)"""
import json
import os
import shutil
import subprocess
import sys
import time
from collections import Counter

from . import build as build_mod
from . import core

KNOWN = os.path.join(core.VERIF, 'known_findings.json')


def load_known(prop):
    try:
        ks = json.load(open(KNOWN))
    except OSError:
        return []
    return [k for k in ks.get('findings', []) if k['property'] == prop]


def engine_for(prop):
    from . import registry
    return registry.make(prop)


def preload(eng):
    """modules a run needs are imported once, before runs are forked off"""
    import importlib
    from .sched import patched_locks
    for name in eng.preload:
        try:
            with patched_locks():
                importlib.import_module(name)
        except Exception:
            pass                        # a run that needs it will say so


def import_sut(d):
    sys.path.insert(0, d)
    os.environ['PYTHONPATH'] = d
    import warnings
    warnings.simplefilter('ignore')
    import numpy, scipy, scipy.linalg, scipy.sparse, scipy.sparse.linalg, scipy.fft, scipy.special, scipy.optimize, h5py  # noqa
    from .sched import patched_locks
    with patched_locks():
        import funpy
    if not os.path.abspath(funpy.__file__).startswith(d):
        raise core.HarnessError('imported the wrong funpy: %s' % funpy.__file__)
    from . import hooks
    hooks.monitor()


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1], '-v' in argv)
    prop = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    t0 = time.monotonic()
    try:
        base, d, key = build_mod.build()
    except build_mod.BuildError as e:
        print('BUILD FAILED', e)
        return 2
    try:
        return check(prop, seed, tier, t0, d, key)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def write_evidence(prop, doc):
    p = os.path.join(core.VERIF, 'evidence')
    os.makedirs(p, exist_ok=True)
    tmp = os.path.join(p, prop + '.json.tmp')
    json.dump(doc, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(p, prop + '.json'))


def check(prop, seed, tier, t0, d, key):
    import_sut(d)
    eng = engine_for(prop)
    preload(eng)
    workers = int(os.environ.get('SIM_WORKERS', os.cpu_count() or 4))
    nruns = int(os.environ.get('SIM_RUNS', eng.quick_runs if tier == 'quick' else eng.thorough_runs))
    wall = eng.quick_wall if tier == 'quick' else eng.thorough_wall
    print('property=%s VERIF_SEED=%d tier=%s tree=%s runs<=%d workers=%d' % (prop, seed, tier, key, nruns, workers))
    sys.stdout.flush()
    tb = time.monotonic()

    # known findings: re-demonstrate each from its own recorded plan
    known = load_known(prop)
    suppressed = set()
    for k in known:
        r = core.execute(eng, k['plan'], timeout=eng.run_timeout)
        if any([v[0], v[1]] == k['class'] for v in r['violations']):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            suppressed.add(tuple(k['class']))
    eng.suppressed = suppressed

    results, capped = core.batch(eng, prop, seed, tier, nruns, wall, workers)
    tsearch = time.monotonic() - tb
    counts, states, digests = Counter(), set(), set()
    simtime = events = 0
    samples = []
    bad = None
    errors = []
    ops_total = 0
    for i in sorted(results):
        r = results[i]
        counts.update(r['counts'])
        states.update(r['states'])
        if any(k.startswith('check:') for k in r['counts']):
            digests.add(r['digest'])
        simtime += r['simtime']
        events += r['nevents']
        ops_total += r.get('nops', 0)
        if r.get('sample') and len(samples) < 3:
            try:
                samples.append(json.loads(r['sample']))
            except ValueError:           # cut
                samples.append(r['sample'])
        if r['violations'] and bad is None:
            bad = i
        if r['error']:
            errors.append((i, r['error']))

    # determinism self-check: some plans again, other process, other neighbours; digests must agree
    redo = [i for i in sorted(results) if not results[i]['error']][:: max(1, len(results) // 16)][:16]
    mism = []
    if bad is None and not errors:
        for i in redo:
            plan = core.gen_plan(eng, prop, seed, i, tier)
            r = core.execute(eng, plan, timeout=eng.run_timeout)
            if r['digest'] != results[i]['digest']:
                mism.append(i)

    rc = 0
    replay_path = None
    if bad is not None:
        plan = core.gen_plan(eng, prop, seed, bad, tier)
        v = results[bad]['violations'][0]
        cls = core.vclass(v)
        small, tries = core.shrink(eng, plan, cls, budget_s=60 if tier == 'quick' else 180)
        r = core.execute(eng, small, timeout=eng.run_timeout, trace=True)
        match = [x for x in r['violations'] if core.vclass(x) == cls]
        rdir = os.path.join(core.VERIF, '.replays')
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, '%s-%d-%d.json' % (prop, seed, bad))
        json.dump(dict(property=prop, seed=seed, run=bad, tree=key, violation=match[0] if match else v,
                       digest=r['digest'], shrink_executions=tries, ops_before=len(plan.get('ops', [])),
                       ops_after=len(small.get('ops', [])), plan=small, trace=r.get('trace')),
                  open(replay_path, 'w'), indent=1)
        if not match and not any(core.vclass(x) == cls for x in core.execute(eng, plan)['violations']):
            print('HARNESS ERROR: violation %r of run %d does not reproduce' % (v, bad))
            rc = 2
        else:
            print('violation: oracle=%s op=%s %s' % tuple(match[0] if match else v))
            print('minimised: %d ops -> %d ops' % (len(plan.get('ops', [])), len(small.get('ops', []))))
            print('plan: %s' % json.dumps({k: x for k, x in small.items()})[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, replay_path))
            rc = 1
    elif errors:
        for i, e in errors[:2]:
            print('HARNESS ERROR in run %d: %s' % (i, e))
        rc = 2
    elif mism:
        print('HARNESS ERROR: runs %s are not repeatable' % mism)
        rc = 2

    extra, xrc = eng.finish(prop, seed, tier, d, counts, results) if hasattr(eng, 'finish') and rc == 0 else ({}, 0)
    rc = rc or xrc
    probes = {k[6:]: v for k, v in counts.items() if k.startswith('probe:')}
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault:')}
    ops = {k[3:]: v for k, v in counts.items() if k.startswith('op:')}
    checks = {k[6:]: v for k, v in counts.items() if k.startswith('check:')}
    wall_s = time.monotonic() - t0
    cov = dict(evaluations=len(results), distinct_nontrivial=len(digests), rule=eng.rule,
               samples=samples or ['none'], operations_planned=ops_total, operations_executed=sum(ops.values()),
               operations_by_kind=ops, oracle_evaluations=checks,
               faults_injected=faults, probes=probes, distinct_states=len(states), state_measure=eng.measure,
               simulated_time=simtime, simulated_events=events,
               runs_per_hour_one_seed_each=int(len(results) / max(tsearch, 1e-9) * 3600),
               search_wall_s=round(tsearch, 2), wall_capped=capped, workers=workers,
               determinism_recheck=dict(rerun=len(redo), mismatches=len(mism)),
               real_components=eng.real, stub_components=eng.stub, known_findings=len(known))
    cov.update(extra)
    zero = [p for p in getattr(eng, 'must_hit', []) if not counts.get(p)]
    cov['probes_never_hit'] = zero
    write_evidence(prop, dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
                              assumptions=eng.assumptions, wall_s=round(wall_s, 2), violations=1 if rc == 1 else 0))
    if rc == 0:
        print('ok: %d runs, %d operations, %d distinct, %d faults, %.1fs search, %.1fs total%s' % (
            len(results), sum(ops.values()), len(digests), sum(faults.values()), tsearch, wall_s,
            ' (wall cap)' if capped else ''))
        if zero:
            print('note: never hit: %s' % zero)
    return rc


def replay(path, verbose):
    doc = json.load(open(path))
    base, d, key = build_mod.build()
    try:
        import_sut(d)
        eng = engine_for(doc['property'])
        preload(eng)
        eng.suppressed = set()
        r = core.execute(eng, doc['plan'], timeout=eng.run_timeout, trace=True)
        for t in (r.get('trace') or []):
            print(t)
        if r['error']:
            print('HARNESS ERROR', r['error'])
            return 2
        print('digest', r['digest'], '(recorded %s)' % doc.get('digest'))
        for v in r['violations']:
            print('violation: oracle=%s op=%s %s' % tuple(v))
        if r['violations']:
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            return 1
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    code = 2
    try:
        code = main(sys.argv[1:])
    except core.HarnessError as e:
        print('HARNESS ERROR', e)
    sys.stdout.flush()
    sys.exit(code)
