"""P05: several threads use the same functions; the simulator owns the schedule."""
import copy
import math

import numpy as np

from . import fworld as W
from .core import Engine
from .hooks import monitor, StepLimit
from .fengine import alike, EXC, akey, gen_cfg, snap_diff, snapkey, distinct
from .model import Snap
from .sched import Scheduler, Deadlock


class TWorld(W.World):
    """the world of one thread: shared functions first, its own behind them"""
    def __init__(self, cfg, shared, snaps):
        super().__init__(cfg)
        self.slots = list(shared)
        self.nshared = len(shared)
        self.fixed = {id(f): s for f, s in zip(shared, snaps)}
        self.maxslots = self.nshared + 6

    def snap(self, k):
        s = self.fixed.get(id(self.slots[k]))
        return s if s is not None else Snap(self.slots[k])

    def build(self, op):
        task = super().build(op)
        if task is not None and task.target is not None and id(self.slots[task.reads[task.target]]) in self.fixed:
            raise W.Skip('in-place on a shared function')
        return task


class ThreadEngine(Engine):
    shrink_keys = ('switches', 'ops', 'faults', 'setup')
    measure = 'distinct (preempted source line, operation ordinal, next thread) switches'
    rule = ('one run is 2-4 threads with 1-5 operations each over shared functions under one explicit schedule of '
            'preemptions at source lines; distinct = distinct digests of schedule, operations and outcomes')
    real = ['funpy.fun', 'funpy.cheb', 'funpy.trig', 'adaptive construction', 'numpy', 'scipy', 'CPython threads']
    stub = ['thread scheduler (simulated)', 'locks (simulated)']
    assumptions = ['preemption happens at source lines and numpy lookups of the library, not inside numpy kernels',
                   'the interpreter makes single bytecode-level container operations atomic']
    quick_runs = 9000
    thorough_runs = 120000
    quick_wall = 60
    must_hit = ['fault:preemption', 'probe:shared-by-two', 'probe:private-inplace']

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, idx, tier):
        cfg = gen_cfg(rng)
        cfg['groups'] = cfg['groups'][:rng.choice([1, 1, 2])]
        ns = rng.choice([1, 2, 3, 4])
        setup = [W.gen_new(rng, cfg, force_group=min(k, len(cfg['groups']) - 1) if k < len(cfg['groups']) else None)
                 for k in range(max(ns, len(cfg['groups'])))]
        nt = rng.choice([2, 2, 2, 3, 4])
        w = W.weights((W.READS, 1), (W.PURE, 1), (W.INPLACE, .4), (W.BAD, .3), (dict(new=6), 1))
        w['text'] = 3 * w.get('text', 1)
        focus = None
        r = rng.random()
        if r < 0.6:
            focus = [W.gen_op(rng, cfg, w) for _ in range(rng.choice([1, 1, 2, 3]))]
        ops = []
        for th in range(nt):
            for k in range(rng.choice([1, 2, 3, 5])):
                if focus and rng.random() < 0.75:
                    op = dict(rng.choice(focus))
                    if rng.random() < 0.4:      # the same operation with other arguments
                        q = W.gen_op(rng, cfg, {op['op']: 1})
                        q['i'] = op.get('i', 0) if 'i' in q else q.get('i', 0)
                        op = q
                else:
                    op = W.gen_op(rng, cfg, w)
                if op.get('which') in ('random', 'random_decay'):      # draw from the generator all threads share
                    op['which'] = 'ones'
                op['th'] = th
                ops.append(op)
        switches, quantum = [], 0
        if rng.random() < 0.25:
            quantum = rng.choice([1, 2, 3, 5, 11, 30])
        else:
            for _ in range(rng.choice([1, 2, 4, 8, 16])):
                th = rng.randrange(nt)
                k = rng.randrange(max(1, sum(o['th'] == th for o in ops)))
                t = rng.choice([0, rng.randrange(1, 60), rng.randrange(1, 60), int(math.exp(rng.uniform(0, math.log(1500))))])
                switches.append(dict(th=th, k=k, t=t, to=rng.randrange(nt)))
        plan = dict(cfg=cfg, setup=setup, nt=nt, ops=ops, switches=switches, quantum=quantum)
        plan['faults'] = []
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 2])):
                th = rng.randrange(nt)
                plan['faults'].append(dict(th=th, k=rng.randrange(max(1, sum(o['th'] == th for o in ops))),
                                           t=int(math.exp(rng.uniform(0, math.log(300)))), exc=rng.choice(list(EXC))))
        return plan

    def simpler(self, plan):
        if plan.get('quantum'):
            for q in (0, plan['quantum'] * 2, plan['quantum'] * 7):
                if q < 500:
                    yield dict(plan, quantum=q)
        for th in range(plan['nt']):
            rest = [o for o in plan['ops'] if o['th'] != th]
            if 0 < len(rest) < len(plan['ops']):
                yield dict(plan, ops=rest)

    # ---------------------------------------------------------------------------------------------- execution
    def build_shared(self, plan):
        w = W.World(plan['cfg'])
        w.maxslots = 99
        for op in plan['setup']:
            try:
                t = w.build(op)
                r = t.thunk([])
            except Exception:
                continue
            w.slots.append(r)
        return w.slots

    def digest(self, res, F):
        if isinstance(res, F):
            return snapkey(res)
        if isinstance(res, (tuple, list)):
            return tuple(self.digest(r, F) for r in res)
        if isinstance(res, np.ndarray):
            return akey(res)
        if isinstance(res, (int, float, complex, str, bool, np.generic)):
            return repr(res)
        return type(res).__name__

    def one(self, world, op, enter, leave):
        """one operation of one thread; returns an outcome record"""
        F = world.F.Fun
        try:
            task = world.build(op)
        except W.Skip:
            return dict(kind='skip')
        if task is None:
            return dict(kind='skip')
        objs = [world.slots[k] for k in task.reads]
        mine = [(f, Snap(f)) for f in distinct(world.slots[world.nshared:])]
        arrays = [(a, akey(a)) for a in task.arrays if isinstance(a, np.ndarray)]
        res = err = None
        enter()
        try:
            res = task.thunk(objs)
        except (Exception, KeyboardInterrupt, StepLimit) as e:
            err = e
        finally:
            fired = leave()
        target = objs[task.target] if task.target is not None else None
        o = dict(kind=task.kind, err=err, fired=fired, task=task, problems=[], digest=None, shared=any(k < world.nshared for k in task.reads),
                 inplace=target is not None)
        for f, s in mine:
            if f is not target:
                d = snap_diff(s, f)
                if d:
                    o['problems'].append(('private', "a function only this thread uses changed during %s: %s" % (task.kind, d)))
        for a, k in arrays:
            if akey(a) != k:
                o['problems'].append(('array', "the caller's array was modified"))
        if fired is not None:
            if target is not None:
                world.slots = [f for f in world.slots if f is not target]
            return o
        if isinstance(err, StepLimit):
            o['problems'].append(('no-progress', 'step budget exceeded'))
            return o
        if isinstance(err, Deadlock):
            o['problems'].append(('deadlock', str(err)))
            return o
        if err is not None:
            if target is not None and not task.must_fail:
                world.slots = [f for f in world.slots if f is not target]
            o['digest'] = ('raised', type(err).__name__)
            return o
        if task.must_fail:
            o['digest'] = ('accepted',)
            return o
        o['digest'] = self.digest(res, F)
        if task.expect is not None:
            o['problems'] += [('value', d) for _, d in task.expect(res)][:1]
        if task.store and target is None:
            for r in ([res] if isinstance(res, F) else [r for r in res if isinstance(r, F)] if isinstance(res, (list, tuple)) else []):
                if len(world.slots) < world.maxslots:
                    world.slots.append(r)
        return o

    def run(self, plan, rec):
        np.seterr(all='ignore')
        np.random.seed(12345)
        mon = monitor()
        shared = self.build_shared(plan)
        if not shared:
            return
        snaps = [Snap(f) for f in shared]
        nt = plan['nt']
        per = [[o for o in plan['ops'] if o['th'] == th] for th in range(nt)]
        worlds = [TWorld(plan['cfg'], shared, snaps) for _ in range(nt)]
        outcomes = [[] for _ in range(nt)]
        sch = Scheduler(mon, nt, plan['switches'], plan.get('quantum', 0), 3000000, rec)
        for f in plan.get('faults', []):
            sch.fault[(f['th'], f['k'])] = (f['t'], EXC[f['exc']]('injected'))
        crash = []

        def body(th):
            np.seterr(all='ignore')
            try:
                for k, op in enumerate(per[th]):
                    o = self.one(worlds[th], op, lambda: sch.begin(th, k), lambda: (sch.end(th), sch.fired[th])[1])
                    outcomes[th].append(o)
                    rec.event(th, k, o['kind'], type(o.get('err')).__name__)
            except BaseException:
                import traceback
                crash.append(traceback.format_exc())
        sch.run(body)
        if crash:
            raise RuntimeError(crash[0])
        rec.simtime += sch.ticks
        rec.count('fault:preemption', sch.nsw)
        users = {}
        for th in range(nt):
            for op, o in zip(per[th], outcomes[th]):
                if o['kind'] == 'skip':
                    rec.count('skipped')
                    continue
                rec.count('op:' + op['op'])
                if o['fired'] is not None:
                    rec.count('fault:exception')
                if o['shared']:
                    users.setdefault(id(o['task'].reads and shared[0]), set()).add(th)
                if o['inplace']:
                    rec.count('probe:private-inplace')
        if any(len(u) > 1 for u in users.values()):
            rec.count('probe:shared-by-two')
        # shared functions as before
        for f, s in zip(shared, snaps):
            d = snap_diff(s, f)
            rec.count('check:shared')
            if d:
                return rec.violate('shared', 'threads', 'a shared function changed: %s' % d)
        for th in range(nt):
            for o in outcomes[th]:
                if o.get('problems') and o['problems'][0][0] != 'value':
                    return rec.violate(o['problems'][0][0], o['kind'], o['problems'][0][1])
        # every thread alone, on equal functions
        alone = self.build_shared(plan)
        asn = [Snap(f) for f in alone]
        if any(not a.same(b) for a, b in zip(asn, snaps)):
            return rec.violate('rebuild', 'new', 'building the same functions again gives other functions')
        for th in range(nt):
            w = TWorld(plan['cfg'], alone, asn)
            for op, o in zip(per[th], outcomes[th]):
                if o['kind'] != 'skip' and o['fired'] is not None:
                    if o['inplace']:        # interrupted: its target was given up
                        t = o['task'].reads[o['task'].target]
                        tgt = w.slots[t]
                        w.slots = [f for f in w.slots if f is not tgt]
                    continue
                r = self.one(w, op, lambda: mon.start(limit=W.STEP_LIMIT), lambda: (mon.stop(), None)[1])
                rec.count('check:alone')
                if r['kind'] != o['kind']:
                    return rec.violate('alone', o['kind'], 'history diverged: %s alone' % r['kind'])
                if o['kind'] == 'skip':
                    continue
                if isinstance(r['err'], StepLimit):
                    return
                if o['problems'] and not r['problems']:
                    return rec.violate('value', o['kind'], 'thread %d: %s' % (th, o['problems'][0][1]))
                if not alike(r['digest'], o['digest']):
                    what = 'raised %s: %s' % (type(o['err']).__name__, o['err']) if o['err'] is not None else 'result differs from the one obtained alone'
                    return rec.violate('alone', o['kind'], 'thread %d: %s' % (th, what))
                if r['problems']:
                    rec.count('other:value')
                    return
