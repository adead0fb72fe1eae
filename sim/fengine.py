"""Histories over the function world: P01 (operands unchanged), P02 (no shared data), P03 (value and refusal),
P04 (interrupted operations).  One engine, four oracles; every engine reports only its own property."""
import copy
import math

import numpy as np

from . import fworld as W
from .core import Engine
from .hooks import monitor, StepLimit, SimFault
from .model import Snap

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SimFault': SimFault,
       'FloatingPointError': FloatingPointError, 'OSError': OSError}
STEP_LIMIT = W.STEP_LIMIT


def akey(a):
    return (a.dtype.str, a.shape, a.tobytes())


def alike(a, b):
    """equal digests, up to rounding: numpy multiplies complex numbers with or without fused operations, depending on addresses"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, bytes) and isinstance(b, bytes) and len(a) == len(b) and len(a) % 8 == 0 and len(a):
        u, v = np.frombuffer(a), np.frombuffer(b)
        if not np.array_equal(np.isfinite(u), np.isfinite(v)):
            return False
        m = np.isfinite(u)
        if u[~m].tobytes() != v[~m].tobytes():
            return False
        u, v = u[m], v[m]
        return bool(u.size == 0 or np.max(np.abs(u - v)) <= 1e-12 * np.max(np.abs(u)))
    if isinstance(a, str) and isinstance(b, str):
        try:
            x, y = complex(a), complex(b)
        except ValueError:
            return False
        return abs(x - y) <= 1e-12 * abs(x)
    return False


def distinct(slots):
    seen, out = set(), []
    for f in slots:
        if id(f) not in seen:
            seen.add(id(f))
            out.append(f)
    return out


def gen_cfg(rng, kinds=None):
    k = rng.random()
    doms = [list(d) for d in W.DOMS]
    if kinds == 'cheb' or (kinds is None and k < 0.5):
        groups = [['cheb', rng.choice(doms)]]
    elif kinds == 'trig' or k < 0.82:
        groups = [['trig', rng.choice(doms)]]
    else:
        groups = [['cheb', rng.choice(doms)], ['trig', rng.choice(doms)]]
    if rng.random() < 0.3:      # a second interval: operations between different intervals must be refused
        groups.append([groups[0][0], rng.choice([d for d in doms if d != groups[0][1]])])
    return dict(groups=groups, ms=rng.choice([[1], [1], [1, 2], [2], [1, 1, 3], [2, 3]]), maxslots=rng.choice([4, 7, 10]))


def snapkey(f):
    try:
        return Snap(f).key()
    except Exception as e:
        return ('broken', type(e).__name__, str(e))


def snap_diff(before, f):
    try:
        S = Snap(f)
    except Exception as e:
        return 'object became unusable: %s %s' % (type(e).__name__, e)
    if before.same(S):
        return None if before.tol == S.tol else 'tolerances %s -> %s' % (before.tol, S.tol)
    return before.diff_text(S)


class FunEngine(Engine):
    real = ['funpy.fun', 'funpy.cheb (Cython and Python)', 'funpy.trig', 'funpy.funpy adaptive construction', 'numpy', 'scipy']
    stub = ['application callbacks (scripted)']
    assumptions = ['functions are built and combined only through documented operations',
                   'operands whose exact result is ill conditioned or not representable are skipped']
    measure = 'distinct (operation, operand kinds, lengths, aliasing, outcome) situations'

    thorough_runs = 100000

    def __init__(self, prop):
        self.prop = prop
        self.quick_runs = 9000
        self.quick_wall = 60
        self.rule = ('one run is one seeded history of 15-45 operations over live functions (two families, several '
                     'intervals, several columns, aliases); distinct = distinct digests of operations, operands and outcomes')
        self.must_hit = ['op:' + k for k in list(W.INPLACE) + list(W.PURE)[:20]]

    # ------------------------------------------------------------------------------------------- generation
    def mix(self, rng):
        p = self.prop
        if p == 'P01':
            return W.weights((W.READS, 1), (W.PURE, 1), (W.INPLACE, 1), (W.STRUCT, .7), (W.BAD, 1), (W.POKE, .3), (W.TOLS, 1))
        if p == 'P02':
            return W.weights((W.READS, .4), (W.PURE, 1), (W.INPLACE, 1.5), (W.STRUCT, 1), (W.BAD, .2), (W.POKE, 3), (W.TOLS, 1))
        if p == 'P03':
            return W.weights((W.READS, 1), (W.PURE, 1), (W.INPLACE, 1), (W.STRUCT, .8), (W.BAD, 1), (W.POKE, .5))
        return W.weights((W.READS, .6), (W.PURE, 1), (W.INPLACE, 1.6), (W.STRUCT, .6), (W.BAD, .2), (W.TOLS, 1))

    def gen(self, rng, idx, tier):
        cfg = gen_cfg(rng)
        if self.prop == 'P04' and rng.random() < 0.6:
            cfg['groups'] = cfg['groups'][:1]
        w = self.mix(rng)
        # swarm: drop some of the operation kinds so that others dominate
        if rng.random() < 0.5:
            keep = {k: v for k, v in w.items() if k in ('new', 'alias') or rng.random() < 0.5}
            w = keep if len(keep) > 6 else w
        ops = [W.gen_new(rng, cfg, force_group=min(k, len(cfg['groups']) - 1) if k < len(cfg['groups']) else None)
               for k in range(rng.choice([2, 3, 4]))]
        n = rng.choice([12, 20, 30]) * (2 if tier == 'thorough' and rng.random() < 0.3 else 1)
        ops += [W.gen_op(rng, cfg, w) for _ in range(n)]
        plan = dict(cfg=cfg, ops=ops)
        rate = {'P01': 0.12, 'P02': 0.05, 'P03': 0.0, 'P04': 0.55}[self.prop]
        for op in ops:
            if rng.random() < rate:
                f = dict(exc=rng.choice(list(EXC)))
                if rng.random() < 0.5:
                    f['at'] = int(math.exp(rng.uniform(0, math.log(300))))
                else:
                    f['frac'] = round(rng.random(), 4)
                if self.prop == 'P04' and rng.random() < 0.25:
                    f['again'] = int(math.exp(rng.uniform(0, math.log(300))))
                op['fault'] = f
        return plan

    # ------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        np.random.seed(12345)
        np.seterr(all='ignore')
        world = W.World(plan['cfg'])
        mon = monitor()
        self.world, self.mon, self.rec = world, mon, rec
        for idx, op in enumerate(plan['ops']):
            rec.simtime += 1
            nb = len(world.slots)
            try:
                task = world.build(op)
            except W.Skip:
                rec.count('skipped')
                continue
            if task is None:
                rec.count('op:' + op['op'])
                rec.event(op['op'], len(world.slots))
                continue
            stop = self.step(idx, op, task)
            if rec.violations or stop:
                return

    def own(self, *oracle):
        return {'P01': ('operand', 'array'), 'P02': ('alias', 'identity'), 'P03': ('value', 'wellformed', 'error', 'refusal', 'no-progress'),
                'P04': ('fault-operand', 'fault-array', 'fault-target', 'fault-retry', 'fault-swallowed', 'fault-bystander')}[self.prop]

    def viol(self, oracle, kind, detail):
        if oracle in self.own():
            self.rec.violate(oracle, kind, detail)
            return True
        self.rec.count('other:' + oracle)
        return False

    def call(self, task, objs, **kw):
        """runs the operation under the monitor; returns (result, exception)"""
        mon = self.mon
        mon.start(limit=STEP_LIMIT, **kw)
        res = err = None
        try:
            res = task.thunk(objs)
        except StepLimit as e:
            err = e
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            mon.stop()
        self.rec.simtime += mon.n
        return res, err

    def funs_in(self, res):
        F = self.world.F.Fun
        if isinstance(res, F):
            return [res]
        if isinstance(res, (tuple, list)):
            return [r for r in res if isinstance(r, F)]
        return []

    def step(self, idx, op, task):
        world, rec, prop = self.world, self.rec, self.prop
        slots = world.slots
        objs = [slots[k] for k in task.reads]
        target = objs[task.target] if task.target is not None else None
        everyone = distinct(slots)
        before = [(f, Snap(f)) for f in everyone]
        arrays = [(a, akey(a)) for a in task.arrays if isinstance(a, np.ndarray)]
        kind = task.kind
        rec.count('op:' + op['op'])
        readids = {id(o) for o in objs}
        fault = op.get('fault')
        if prop == 'P04' and fault:
            return self.step_fault(idx, op, task, objs, target, before, arrays)
        kw = {}
        if fault:
            at = fault.get('at')
            if at is None:
                at = 1 + int(fault['frac'] * 150)
            kw = dict(at=at, exc=EXC[fault['exc']]('injected'))
        res, err = self.call(task, objs, **kw)
        fired = self.mon.fired is not None
        if fired:
            rec.count('fault:' + fault['exc'])
        # a value that comes back although a fault was swallowed on the way is judged like any other (P03)
        shape = tuple((s.kind, min(s.n, 64), s.m) for f, s in before if id(f) in readids)
        rec.state((kind, shape, len(set(map(id, objs))) < len(objs), type(err).__name__ if err else None))
        rec.event(idx, kind, [k for k in task.reads], type(err).__name__ if err else None, fired)
        # --- operands, caller's arrays, bystanders
        for f, s in before:
            if target is not None and f is target:
                continue
            d = snap_diff(s, f)
            if d:
                if id(f) in readids:
                    rec.count('check:operand')
                    self.viol('operand', kind, 'operand of %s changed: %s%s' % (kind, d, ' (operation failed: %r)' % err if err else ''))
                    if target is not None:      # an in-place update that reaches another operand: shared data, too
                        self.viol('alias', kind, 'in-place %s changed its other operand: %s' % (kind, d))
                else:
                    self.viol('alias', kind, '%s changed a function that is not involved: %s' % (kind, d))
                return True
        rec.count('check:operands', len(before))
        for a, k in arrays:
            if akey(a) != k:
                self.viol('array', kind, "the caller's array was modified")
                return True
        rec.count('check:arrays', len(arrays))
        # --- failures
        if isinstance(err, StepLimit):
            self.viol('no-progress', kind, 'more than %d steps' % STEP_LIMIT)
            return True
        if err is not None:
            if target is not None and not task.must_fail:
                # a failed in-place operation leaves an unspecified target: forget it
                world.slots = [f for f in slots if f is not target]
            if task.must_fail or fired:
                if task.must_fail and task.must_fail is not True and not fired and not isinstance(err, task.must_fail):
                    self.viol('error', kind, 'callback error surfaced as %s: %s' % (type(err).__name__, err))
                    return True
                rec.count('probe:refused' if task.must_fail else 'probe:interrupted')
                return False
            return self.viol('error', kind, 'unexpected %s: %s' % (type(err).__name__, err))
        if task.must_fail:
            if not fired:
                self.viol('refusal', kind, 'operation was accepted and returned %s' % type(res).__name__)
            return True
        # --- outcome
        rec.count('check:value')
        if task.expect is not None:
            for oracle, detail in task.expect(res):
                self.viol(oracle, kind, detail)
                return True
        results = self.funs_in(res)
        if prop == 'P03':
            for r in results + ([target] if target is not None else []):
                p = world.wellformed(r)
                rec.count('check:wellformed')
                if p:
                    self.viol('wellformed', kind, p)
                    return True
        for r in results:
            rec.data(r.coeffs)
        if isinstance(res, (float, np.floating, np.ndarray)):
            rec.data(res)
        # --- identity and independence
        if target is not None:
            if not (isinstance(res, world.F.Fun) and res is target) and kind not in ('poke', 'prolong', 'simplify'):
                self.viol('identity', kind, 'in-place operation returned another object')
                if op['op'] == 'outarg' or True:
                    return True
        if target is not None and kind in ('prolong', 'simplify'):
            results = [r for r in results if r is not target]
        if prop == 'P02':
            if self.independence(kind, results, target, before, [] if kind.startswith('new') else arrays, objs):
                return True
        # names bound to the target keep seeing it; new results get their own slot
        if task.store and target is None:
            for r in results:
                if len(slots) >= world.maxslots:
                    k = idx % len(slots)
                    slots[k] = r
                else:
                    slots.append(r)
        return False

    def cells(self, f):
        """writable data of one function"""
        t = f.onefun
        out = [t.coeffs]
        if f.istrig:
            out.append(t.values)
        return out

    def independence(self, kind, results, target, before, arrays, objs):
        """write into the result and look at everyone else; write into everyone else and look at the result"""
        rec = self.rec
        fs = results if target is None else [target]
        for r in fs:
            others = [f for f, _ in before if f is not r]
            snaps = [Snap(f) for f in others]
            ak = [(a, akey(a)) for a, _ in arrays]
            peers = [q for q in fs if q is not r]
            psn = [Snap(q) for q in peers]
            saved = [c.copy() for c in self.cells(r)]
            rec.count('check:independence', len(others) + 1)
            wrote = False
            for c in self.cells(r):
                if c.flags.writeable:
                    c[...] = c + 1.0
                    wrote = True
            if target is None and any(r is f for f, _ in before):
                rec.count('check:identity')
                if wrote:
                    for c, s in zip(self.cells(r), saved):
                        c[...] = s
                return self.viol('alias', kind, 'the result is the operand itself')
            for f, s in zip(others + peers, snaps + psn):
                d = snap_diff(s, f)
                if d:
                    return self.viol('alias', kind, 'writing to the result of %s changed another function: %s' % (kind, d))
            for a, k in ak:
                if akey(a) != k:
                    return self.viol('alias', kind, "writing to the result changed the caller's array")
            for c, s in zip(self.cells(r), saved):
                if c.flags.writeable:
                    c[...] = s
            # the other direction
            mine = Snap(r)
            for f in others:
                sv = [c.copy() for c in self.cells(f)]
                for c in self.cells(f):
                    if c.flags.writeable:
                        c[...] = c + 1.0
                d = snap_diff(mine, r)
                for c, s in zip(self.cells(f), sv):
                    if c.flags.writeable:
                        c[...] = s
                if d:
                    return self.viol('alias', kind, 'writing to an operand changed the result of %s: %s' % (kind, d))
            for a, _ in ak:
                if a.flags.writeable and a.dtype.kind in 'fc':
                    sv = a.copy()
                    a[...] = a + 1.0
                    d = snap_diff(mine, r)
                    a[...] = sv
                    if d:
                        return self.viol('alias', kind, "writing to the caller's array changed the function: %s" % d)
        return False

    # ------------------------------------------------------------------------------------------- P04
    def step_fault(self, idx, op, task, objs, target, before, arrays):
        world, rec = self.world, self.rec
        slots = world.slots
        kind = task.kind
        fault = op['fault']
        readids = {id(o) for o in objs}
        ref = None

        if 'at' in fault:       # straight into the fault: whatever is memoised may be half filled
            at = fault['at']
        else:                   # a fault-free run first: the fault lands anywhere in the operation with equal odds
            ref = self.call(task, objs if target is None else copy.deepcopy(objs, {})) + (self.mon.n,)
            at = 1 + int(fault['frac'] * ref[2])
        plans = [at] + ([fault['again']] if 'again' in fault else [])
        done = False
        for t in plans:
            res, err = self.call(task, objs, at=t, exc=EXC[fault['exc']]('injected'))
            fired = self.mon.fired
            rec.event(idx, kind, task.reads, t, fault['exc'], fired is not None, type(err).__name__ if err else None)
            if isinstance(err, StepLimit):
                self.viol('fault-retry', kind, 'no progress after an injected %s' % fault['exc'])
                return True
            if fired is None:
                rec.count('fault-not-reached')
                done = True
                break
            rec.count('fault:' + fault['exc'])
            rec.count('probe:fault-in-' + ('inplace' if target is not None else 'pure' if task.store else 'read'))
            rec.state((kind, fired, fault['exc']))
            for f, s in before:
                if f is target:
                    continue
                d = snap_diff(s, f)
                if d:
                    self.viol('fault-operand' if id(f) in readids else 'fault-bystander', kind,
                              'after an injected %s inside %s: %s' % (fault['exc'], kind, d))
                    return True
            for a, k in arrays:
                if akey(a) != k:
                    self.viol('fault-array', kind, "the caller's array was modified by an interrupted %s" % kind)
                    return True
            rec.count('check:after-fault', len(before))
            if err is None:     # swallowed: then the outcome must be right
                rec.count('probe:swallowed')
                if not task.must_fail and task.expect is not None:
                    for oracle, detail in task.expect(res):
                        self.viol('fault-swallowed', kind, 'injected %s was swallowed and the outcome is wrong: %s' % (fault['exc'], detail))
                        return True
                done = True
                break
            if target is not None:
                s0 = [s for f, s in before if f is target][0]
                p = world.wellformed(target)
                rec.count('check:target')
                if p:
                    self.viol('fault-target', kind, 'interrupted %s left its target inconsistent: %s' % (kind, p))
                    return True
                if not s0.same(Snap(target)):
                    bad = [] if task.expect is None else task.expect(target)
                    if bad:
                        self.viol('fault-target', kind, 'interrupted %s left its target neither as before nor updated: %s' % (kind, bad[0][1]))
                        return True
                    rec.count('probe:target-updated')
                    done = True     # the update took effect before the fault: nothing to retry
                    res = target
                    break
        # retry without faults
        if not done or fired is None:
            if fired is not None:
                res, err = self.call(task, objs)
            if err is not None and not task.must_fail:
                rec.event('retry', type(err).__name__)
                if fired is not None:
                    if ref is None or ref[1] is None:
                        self.viol('fault-retry', kind, 'after an injected fault the retry fails: %s %s' % (type(err).__name__, err))
                return True
            if not task.must_fail and task.expect is not None:
                for oracle, detail in task.expect(res):
                    if fired is not None:
                        self.viol('fault-retry', kind, 'retry after an injected %s: %s' % (fault['exc'], detail))
                    return True
            rec.count('check:retry')
            if fired is not None and not task.must_fail:
                if ref is not None and ref[1] is None and target is None and not alike(self.digest(res), self.digest(ref[0])):
                    self.viol('fault-retry', kind, 'retry differs from the fault-free run: %s' % self.why(res, ref[0]))
                    return True
        if task.must_fail:
            return False
        if task.store and target is None:
            for r in self.funs_in(res):
                if len(slots) >= world.maxslots:
                    slots[idx % len(slots)] = r
                else:
                    slots.append(r)
        return False

    def digest(self, res):
        F = self.world.F.Fun
        if isinstance(res, F):
            return snapkey(res)
        if isinstance(res, (tuple, list)):
            return tuple(self.digest(r) for r in res)
        if isinstance(res, np.ndarray):
            return akey(res)
        if isinstance(res, (int, float, complex, str, bool, np.generic)):
            return repr(res)
        return type(res).__name__

    def why(self, a, b):
        if isinstance(a, self.world.F.Fun) and isinstance(b, self.world.F.Fun):
            return Snap(a).diff_text(Snap(b))
        return '%s vs %s' % (str(a)[:80], str(b)[:80])
