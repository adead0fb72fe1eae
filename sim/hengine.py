"""P07: functions and states on a simulated disk - save/load histories, failing write requests, full and flaky disks,
process death at any disk write with only the image written so far surviving."""
import errno
import json
import math
import os
import select
import signal
import time
import warnings

import numpy as np

from . import fworld as W
from .core import Engine
from .fengine import EXC, gen_cfg, distinct
from .hooks import monitor, StepLimit
from .simdisk import SimFile
from .states import isfun, picture, state_picture, make_state, PNAMES, KINDS
from .model import Snap, PROBE


class ApiFaults:
    """counts the requests h5py receives and fails the k-th one, before or after it took effect"""
    def __init__(self, h5py):
        self.n = 0
        self.at = None
        self.exc = None
        self.after = False
        self.kind = 'w'
        self.active = False
        self.fired = None
        G, A, D = h5py.Group, h5py.AttributeManager, h5py.Dataset
        self.wrap(G, 'create_dataset', 'w')
        self.wrap(G, 'create_group', 'w')
        self.wrap(G, '__setitem__', 'w')
        self.wrap(A, '__setitem__', 'w')
        self.wrap(A, '__getitem__', 'r')
        self.wrap(D, '__getitem__', 'r')
        self.wrap(G, '__getitem__', 'r')
        self.depth = 0

    def wrap(self, cls, name, kind):
        orig = getattr(cls, name)
        me = self

        def f(*a, **k):
            if not me.active or me.depth:
                return orig(*a, **k)
            hit = False
            if kind == me.kind:
                me.n += 1
                hit = me.at is not None and me.n == me.at
            if hit and not me.after:
                me.at = None
                me.fired = name
                raise me.exc
            me.depth += 1
            try:
                r = orig(*a, **k)
            finally:
                me.depth -= 1
            if hit:
                me.at = None
                me.fired = name
                raise me.exc
            return r
        setattr(cls, name, f)

    def start(self, kind, at, exc, after):
        self.n, self.kind, self.at, self.exc, self.after, self.fired = 0, kind, at, exc, after, None
        self.depth = 0
        self.active = True

    def stop(self):
        self.active = False
        return self.fired


_api = []


def in_child(fn, seconds=20):
    """runs fn in a forked process (reading a damaged file may kill libhdf5) and returns its JSON answer or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
            os.write(w, json.dumps(out).encode()[:60000])
        except BaseException as e:
            try:
                os.write(w, json.dumps(dict(harness='%s: %s' % (type(e).__name__, e))).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + seconds
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rr, _, _ = select.select([r], [], [], left)
        if rr:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


class DiskEngine(Engine):
    shrink_keys = ('ops',)
    preload = ['funpy.vectorspaces']
    measure = 'distinct (saved kind, fault level, fault point, what loading gave) situations'
    rule = ('one run is a seeded history of 12-40 saves, loads, updates, reopens, disk faults and process deaths over '
            'functions and states; distinct = distinct digests of operations and outcomes')
    real = ['funpy.fun', 'funpy.cheb', 'funpy.trig', 'funpy.vectorspaces', 'h5py and libhdf5', 'numpy']
    stub = ['disk (in-memory file with logged writes)', 'process death (image of the writes so far)']
    assumptions = ['the disk keeps writes in order; a dying process leaves a prefix of its writes, the last possibly torn',
                   'after libhdf5 itself reported a failed write nothing is assumed of other data in that file except '
                   'that what loads without error is a completely saved object']
    quick_runs = 9000
    thorough_runs = 120000
    quick_wall = 60
    must_hit = ['fault:api-write', 'fault:api-read', 'fault:disk-write', 'fault:death', 'fault:tick', 'probe:loaded-partial-refused',
                'probe:death-loaded', 'probe:death-refused', 'probe:resave-refused']

    library_may_die = 'probe:libhdf5-died'     # it sometimes does after a write it was told had failed

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, idx, tier):
        cfg = gen_cfg(rng)
        cfg['maxslots'] = 8
        w = W.weights((W.PURE, .5), (W.INPLACE, 1.5), (W.POKE, 3), (dict(new=6, alias=2), 1))
        ops = [W.gen_new(rng, cfg, force_group=min(k, len(cfg['groups']) - 1) if k < len(cfg['groups']) else None)
               for k in range(rng.choice([1, 2, 3]))]
        n = rng.choice([8, 14, 22, 30])
        faulty = rng.random() < 0.75
        for _ in range(n):
            k = W.pick(rng, dict(f=3, mkstate=2.5, mutstate=1.5, savef=4, saves=4, load=6, reopen=1.2, newfile=.3, death=1.5 if faulty else 0,
                                 delete=.4))
            if k == 'f':
                ops.append(W.gen_op(rng, cfg, w))
                continue
            op = dict(op=k, i=rng.randrange(64), j=rng.randrange(64), file=rng.choice([0, 0, 1]), g=rng.randrange(6), s=rng.randrange(1 << 20))
            if k == 'mkstate':
                op['kind'] = rng.choice(KINDS)
                op['names'] = rng.sample(PNAMES, 2)
                op['vals'] = [rng.choice([round(rng.uniform(-3, 3), 4), 0.0, 1, -2]) for _ in range(2)]
                rest = [p for p in PNAMES if p not in op['names'] and p != 'a']
                op['ns'] = {p: rng.choice([round(rng.uniform(-3, 3), 4), 2, 0.0]) for p in rng.sample(rest, rng.choice([0, 1, 2, 3]))}
                if rng.random() < 0.3:
                    op['weights'] = [round(rng.uniform(0.5, 3), 3) for _ in range(4)]
            elif k == 'mutstate':
                op['how'] = rng.choice(['imul', 'iadd', 'setns', 'copy', 'add', 'normalize', 'fun', 'flip', 'mp', 'mp'])
                op['a'] = rng.choice([2.0, -0.5, 1.25])
            elif k in ('savef', 'saves', 'load'):
                if faulty and rng.random() < 0.4:
                    lv = rng.choice(['api', 'api', 'disk', 'tick'] if k != 'load' else ['api', 'api', 'tick', 'disk'])
                    f = dict(level=lv, exc=rng.choice(['OSError', 'OSError', 'KeyboardInterrupt', 'MemoryError', 'SimFault']))
                    if lv == 'api':
                        f['k'] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 18, 22, 26])
                        f['after'] = rng.random() < 0.4
                    elif lv == 'disk':
                        f['k'] = rng.choice([1, 1, 2, 3, 4, 6])
                        f['persistent'] = rng.random() < 0.5
                        f['err'] = rng.choice([errno.ENOSPC, errno.EIO])
                    else:
                        f['k'] = int(math.exp(rng.uniform(0, math.log(120))))
                    op['fault'] = f
                if k == 'load':
                    op['where'] = rng.choice(['same', 'same', 'same', 'process', 'reader'])
            elif k == 'reopen':
                op['how'] = rng.choice(['close', 'close', 'flush'])
                op['mode'] = rng.choice(['r+', 'a', 'a', 'r'])
                if faulty and rng.random() < 0.25:
                    op['fault'] = dict(k=rng.choice([1, 2, 3, 5, 8]), persistent=rng.random() < 0.5,
                                       err=rng.choice([errno.ENOSPC, errno.EIO]))
            elif k == 'newfile':
                op['libver'] = rng.choice([None, None, 'latest'])
            elif k == 'death':
                op['frac'] = round(rng.random(), 4) if rng.random() < 0.7 else 1.0
                op['back'] = rng.choice([0, 0, 1, 2, 3])
                op['torn'] = rng.choice([0, 0, 1, 8, 64, 300])
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    # ------------------------------------------------------------------------------------------------ the run
    def run(self, plan, rec):
        import h5py
        import funpy.vectorspaces as vs
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(12345)
        self.h5, self.vs, self.rec = h5py, vs, rec
        if not _api:
            _api.append(ApiFaults(h5py))
        self.api = _api[0]
        self.mon = monitor()
        self.world = w = W.World(plan['cfg'])
        self.states = []
        self.loaded = set()           # ids of loaded objects
        self.keep = []
        self.files = {}
        for fi in (0, 1):
            self.newfile(fi, 'latest' if plan.get('run', 0) % 3 == 2 else None)
        for op in plan['ops']:
            rec.simtime += 1
            k = op['op']
            try:
                fn = getattr(self, 'x_' + k, None)
                if fn is None:
                    self.funop(op)
                else:
                    fn(op)
            except W.Skip:
                rec.count('skipped')
                continue
            rec.event(k, op.get('i'), len(w.slots), len(self.states))
            if rec.violations:
                return
        for fi in self.files:
            self.final(fi)
            if rec.violations:
                return

    def newfile(self, fi, libver):
        d = SimFile()
        h = self.h5.File(d, 'w', libver=libver) if libver else self.h5.File(d, 'w')
        self.files[fi] = dict(disk=d, h=h, groups={}, sound=True, libver=libver)

    def everything(self):
        out = [('f', f, picture(f)) for f in distinct(self.world.slots)]
        out += [('s', s, state_picture(s)) for s in distinct(self.states)]
        return out

    def parts(self, o):
        """ids of the objects an object is made of"""
        if hasattr(type(o), 'tangent'):
            return {id(o)} | self.parts(o.u) | self.parts(o.v)
        if isfun(o):
            return {id(o)}
        return {id(o)} | {id(f) for f in o.funcs} | {id(r) for r in o.reals}

    def same(self, kind, o, before, allowed=()):
        try:
            now = picture(o) if kind == 'f' else state_picture(o)
        except Exception as e:
            return 'became unusable: %s %s' % (type(e).__name__, e)
        if now == before:
            return None
        return 'changed'

    def untouched(self, before, what, oracle, skip=()):
        for kind, o, p in before:
            if id(o) in skip:
                continue
            d = self.same(kind, o, p)
            self.rec.count('check:untouched')
            if d:
                self.rec.violate(oracle, what, '%s %s' % ('a function' if kind == 'f' else 'a state', d))
                return False
        return True

    # -- operations on functions and states between saves
    def funop(self, op):
        w = self.world
        task = w.build(op)
        if task is None:
            self.rec.count('op:' + op['op'])
            return
        objs = [w.slots[k] for k in task.reads]
        tgt = objs[task.target] if task.target is not None else None
        watch = []
        if tgt is not None:
            watch = [(k, o, p) for k, o, p in self.everything() if o is not tgt and id(tgt) not in self.parts(o) and
                     (id(o) in self.loaded or id(tgt) in self.loaded)]
        err = None
        self.mon.start(limit=W.STEP_LIMIT)
        try:
            res = task.thunk(objs)
        except (Exception, StepLimit) as e:
            err = e
        finally:
            self.mon.stop()
        self.rec.simtime += self.mon.n
        self.rec.count('op:' + op['op'])
        if tgt is not None:
            if not self.untouched(watch, 'update', 'independence'):
                return
        if err is not None:
            if tgt is not None:
                w.slots = [f for f in w.slots if f is not tgt]
                self.states = [s for s in self.states if id(tgt) not in self.parts(s)]
            return
        if task.store and tgt is None:
            F = w.F.Fun
            for r in ([res] if isinstance(res, F) else [r for r in res if isinstance(r, F)] if isinstance(res, (list, tuple)) else []):
                self.store(r)

    def store(self, f):
        w = self.world
        w.slots.append(f)
        if len(w.slots) > w.maxslots:
            w.slots.pop(0)

    def pick(self, lst, i):
        if not lst:
            raise W.Skip()
        return lst[i % len(lst)]

    def x_mkstate(self, op):
        u = self.pick(self.world.slots, op['i'])
        same = [f for f in self.world.slots if f.istrig == u.istrig and f.m == u.m and tuple(f.domain) == tuple(u.domain)]
        phi = self.pick(same, op['j'])
        ns = dict(op['ns'])
        import copy
        if op['kind'] == 'tp':
            u, phi = copy.deepcopy(u), copy.deepcopy(phi)
        s = make_state(self.vs, op['kind'], u, phi, op['names'], op['vals'], ns)
        if op.get('weights'):
            s.weights = np.array(op['weights'][:len(s.signature)])
        self.addstate(s)
        self.rec.count('op:mkstate')

    def addstate(self, s):
        self.states.append(s)
        if len(self.states) > 6:
            self.states.pop(0)

    def x_mutstate(self, op):
        s = self.pick(self.states, op['i'])
        mp = hasattr(type(s), 'tangent')
        how = op['how']
        self.rec.count('op:mutstate')
        mine = self.parts(s)
        watch = [(k, o, p) for k, o, p in self.everything() if not (self.parts(o) & mine) and (id(o) in self.loaded or (mine & self.loaded))]
        new = None
        try:
            if mp:
                return
            if how == 'imul':
                s *= op['a']
            elif how == 'iadd':
                import copy
                s += copy.deepcopy(s)
            elif how == 'setns':
                name = [n for n in PNAMES[1:] if n not in [r.name for r in s.reals]][op['s'] % 3]
                s[name] = op['a']
            elif how == 'copy':
                import copy
                new = copy.deepcopy(s)
            elif how == 'add':
                new = s + s * op['a']
            elif how == 'normalize':
                s.normalize()
            elif how == 'flip':
                s.flip()
            elif how == 'fun':
                s.funcs[0] *= op['a']
            elif how == 'mp':
                if type(s).__name__ != 'ContinuationState':
                    return
                import copy
                new = self.vs.MoorePenroseState(u=s, v=copy.deepcopy(s))
        except Exception:
            self.states = [t for t in self.states if not (self.parts(t) & mine)]
            self.world.slots = [f for f in self.world.slots if id(f) not in mine]
            return
        if new is not None:
            self.addstate(new)
            return
        self.untouched(watch, 'update of a state', 'independence')

    # -- saving
    def guarded(self, op, fi, kind, thunk):
        """runs thunk under the operation's fault; returns (result, error, fired description)"""
        f = op.get('fault')
        d = self.files[fi]['disk']
        res = err = fired = None
        f0 = d.fails
        self.api.start(kind, None, None, False)
        at = exc = None
        if f:
            exc = EXC[f['exc']]('injected') if 'exc' in f else None
            if f['level'] == 'api':
                self.api.start(kind, f['k'], exc, f.get('after', False))
            elif f['level'] == 'disk':
                if kind == 'w':
                    d.fail_at, d.persistent, d.err = f['k'], f['persistent'], f['err']
                else:
                    d.read_fail_at = f['k']
            else:
                at = f['k']
        self.mon.start(limit=W.STEP_LIMIT, at=at, exc=exc)
        try:
            res = thunk()
        except (Exception, KeyboardInterrupt, StepLimit) as e:
            err = e
        finally:
            self.mon.stop()
            fired = self.api.stop()
            if self.mon.fired is not None:
                fired = 'tick'
                self.rec.count('fault:tick')
            elif fired:
                self.rec.count('fault:api-write' if kind == 'w' else 'fault:api-read')
            if d.fails > f0:
                fired = 'disk'
                self.rec.count('fault:disk-write' if kind == 'w' else 'fault:disk-read', d.fails - f0)
                if kind == 'w':
                    self.files[fi]['sound'] = False
            d.fail_at = d.read_fail_at = None
        self.rec.simtime += self.mon.n
        return res, err, fired

    def x_savef(self, op):
        o = self.pick(self.world.slots, op['i'])
        self.save(op, o, 'f', picture(o))

    def x_saves(self, op):
        o = self.pick(self.states, op['i'])
        self.save(op, o, 's', state_picture(o))

    def save(self, op, o, kind, pic):
        fi = op['file']
        F = self.files[fi]
        rec = self.rec
        if F['h'] is None or F.get('mode') == 'r':
            raise W.Skip()
        g = 'g%d' % op['g']
        old = F['groups'].get(g)
        before = self.everything()
        rec.count('op:save-' + ('function' if kind == 'f' else type(o).__name__))

        def thunk():
            h = F['h']
            grp = h[g] if old is not None and g in h else h.create_group(g)
            o.writeHDF5(grp)
        if old is not None and (op['s'] % 3 or not F['sound']):
            raise W.Skip()                  # saving over an existing group is tried now and then
        res, err, fired = self.guarded(op, fi, 'w', thunk)
        if not self.untouched(before, 'save', 'save-modifies'):
            return
        if isinstance(err, StepLimit):
            return rec.violate('no-progress', 'save', 'step budget exceeded')
        cls = type(o).__name__
        if old is not None:
            # the group already holds something: refused, or both are acceptable
            rec.count('probe:resave-refused' if err is not None else 'probe:resave-accepted')
            if kind != old['kind'] or cls != old['cls']:
                old['status'] = 'mixed' if old['kind'] != kind or err is None else old['status']
                if err is None or old['status'] != 'complete':
                    F['groups'][g] = dict(kind=kind, status='mixed', pics=old['pics'] + [pic], cls=cls, snaps=[])
                    return
            if err is None:
                old['pics'] = [pic]
                old['status'] = 'complete'
            elif old['status'] != 'complete' or fired:
                old['pics'] = old['pics'] + [pic]
                if fired:
                    old['status'] = 'partial'
            rec.event('resave', type(err).__name__)
            return self.verify(fi, g, 'after saving over it')
        if err is None:
            F['groups'][g] = dict(kind=kind, status='complete', pics=[pic], cls=cls)
            if fired:
                rec.count('probe:fault-absorbed')
        else:
            if not fired:
                return rec.violate('save', cls, 'saving raised %s: %s' % (type(err).__name__, err))
            F['groups'][g] = dict(kind=kind, status='partial', pics=[pic], cls=cls)
        rec.state(('save', cls, fired, op.get('fault', {}).get('k') if fired else None, err is None))
        self.verify(fi, g, 'right after the save')

    # -- loading
    def load_obj(self, grp, G):
        if G['kind'] == 'f':
            return self.world.F.Fun.from_hdf5(grp)
        if G['cls'] == 'ContinuationState':
            return self.vs.ContinuationState.from_hdf5(grp)
        if G['cls'] == 'MoorePenroseState':
            return self.vs.MoorePenroseState(u=self.vs.ContinuationState.from_hdf5(grp['u']), v=self.vs.ContinuationState.from_hdf5(grp['v']))
        # no loader of its own: put together from the stored parts
        fs = [self.world.F.Fun.from_hdf5(grp[k]) for k in sorted(grp) if k.startswith('func')]
        rs = [self.vs.Parameter.from_hdf5(grp[k]) for k in sorted(grp) if k.startswith('real')]
        ns = self.vs.Namespace.from_hdf5(grp['ns'])
        cls = getattr(self.vs, G['cls'])
        fa, ra = np.empty(len(fs), dtype=object), np.empty(len(rs), dtype=object)
        for k, f in enumerate(fs):
            fa[k] = f
        for k, r in enumerate(rs):
            ra[k] = r
        r = cls(funcs=fa, reals=ra, ns=ns)
        r.weights = grp['weights'][:]
        return r

    def pic(self, kind, o):
        return picture(o) if kind == 'f' else state_picture(o)

    def matches(self, got, want):
        """equal up to the sample values of Fourier functions, which are recomputed"""
        if got == want:
            return True
        return self.loose(got) == self.loose(want)

    def loose(self, p):
        if isinstance(p, tuple) and p and p[0] == 'trig' and len(p) == 7:
            return p[:5] + p[6:]
        if isinstance(p, tuple):
            return tuple(self.loose(x) for x in p)
        return p

    def describe(self, got, want):
        got, want = self.loose(got), self.loose(want)

        def walk(a, b, path):
            if a == b:
                return None
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for i, (x, y) in enumerate(zip(a, b)):
                    r = walk(x, y, path + [i])
                    if r:
                        return r
            return '%s: %.120r instead of %.120r' % ('.'.join(map(str, path)), a, b)
        return walk(got, want, [])

    def judge(self, G, o, err, sound=True):
        """verdict on one load: None or a complaint"""
        partial = G['status'] != 'complete' or not sound
        if err is not None:
            if isinstance(err, StepLimit):
                return 'loading does not end'
            if partial:
                return None
            return 'loading a completely saved object raised %s: %s' % (type(err).__name__, err)
        if G['status'] == 'mixed':
            return None
        if G['status'] != 'complete' and G['kind'] == 's' and G['cls'] != 'ContinuationState':
            return None
        try:
            got = self.pic(G['kind'], o)
        except Exception as e:
            return 'the loaded object is unusable: %s: %s' % (type(e).__name__, e)
        if not any(self.matches(got, p) for p in G['pics']):
            return '%s object loaded without error but differs from what was saved (%s)' % (
                'a partly saved' if partial else 'the', self.describe(got, G['pics'][-1]))
        if G['kind'] == 'f' and G['status'] == 'complete':
            p = self.world.wellformed(o)
            if p:
                return 'the loaded function is inconsistent: ' + p
        return None

    def verify(self, fi, g, when):
        F = self.files[fi]
        G = F['groups'].get(g)
        if G is None or F['h'] is None:
            return
        o = err = None
        try:
            o = self.load_obj(F['h'][g], G)
        except Exception as e:
            err = e
        bad = self.judge(G, o, err, F['sound'])
        self.rec.count('check:load')
        if G['status'] != 'complete':
            self.rec.count('probe:loaded-partial-%s' % ('refused' if err is not None else 'complete'))
        if bad:
            self.rec.violate('load', G['cls'], '%s, %s' % (bad, when))

    def x_load(self, op):
        fi = op['file']
        F = self.files[fi]
        if F['h'] is None or not F['groups']:
            raise W.Skip()
        g = sorted(F['groups'])[op['g'] % len(F['groups'])]
        G = F['groups'][g]
        rec = self.rec
        before = self.everything()
        rec.count('op:load-' + op['where'])
        if op['where'] == 'process':
            def other():
                self.mon.stop()
                o = err = None
                try:
                    o = self.load_obj(F['h'][g], G)
                except Exception as e:
                    err = e
                return dict(bad=self.judge(G, o, err, F['sound']))
            r = in_child(other)
            if r is not None and r.get('bad'):
                rec.violate('load', G['cls'], r['bad'] + ', in another process')
            return
        if op['where'] == 'reader':
            return self.reader(fi, g, G, before)
        o, err, fired = self.guarded(op, fi, 'r', lambda: self.load_obj(F['h'][g], G))
        if not self.untouched(before, 'load', 'load-modifies'):
            return
        rec.count('check:load')
        if fired and err is not None:
            if isinstance(err, StepLimit):
                return rec.violate('no-progress', 'load', 'step budget exceeded')
            o = err = None                         # a failed load; load again
            try:
                o = self.load_obj(F['h'][g], G)
            except Exception as e:
                err = e
            rec.count('probe:load-retried')
        bad = self.judge(G, o, err, F['sound'])
        rec.state(('load', G['cls'], G['status'], fired, type(err).__name__))
        if bad:
            return rec.violate('load', G['cls'], bad)
        if o is not None and G['status'] == 'complete':
            self.loaded.add(id(o))
            self.keep.append(o)
            if G['kind'] == 'f':
                self.store(o)
            else:
                self.loaded |= self.parts(o)
                self.addstate(o)

    def reader(self, fi, g, G, before):
        """flush, then a second reader opens the image"""
        F = self.files[fi]
        rec = self.rec
        if not F['sound']:
            raise W.Skip()
        try:
            F['h'].flush()
        except Exception as e:
            return
        img = bytes(F['disk'].b)
        h = self.h5.File(SimFile(img), 'r')
        o = err = None
        try:
            o = self.load_obj(h[g], G)
        except Exception as e:
            err = e
        bad = self.judge(G, o, err)
        rec.count('check:load')
        if bad:
            return rec.violate('load', G['cls'], bad + ', by a second reader')
        try:
            h.close()
        except Exception:
            pass
        if o is not None and G['status'] == 'complete':
            bad = self.judge(G, o, None)
            if bad:
                return rec.violate('load', G['cls'], bad + ', after the file was closed')
        self.untouched(before, 'load', 'load-modifies')

    # -- file life cycle
    def x_reopen(self, op):
        F = self.files[op['file']]
        rec = self.rec
        if F['h'] is None:
            raise W.Skip()
        d = F['disk']
        f = op.get('fault')
        f0 = d.fails
        if f:
            d.fail_at, d.persistent, d.err = f['k'], f['persistent'], f['err']
        err = None
        before = self.everything()
        try:
            F['h'].flush()
            if op['how'] == 'close':
                F['h'].close()
        except Exception as e:
            err = e
        d.fail_at = None
        rec.count('op:' + op['how'])
        if d.fails > f0:
            F['sound'] = False
            rec.count('fault:disk-write', d.fails - f0)
        if not self.untouched(before, 'reopen', 'save-modifies'):
            return
        if err is not None and F['sound']:
            return rec.violate('save', 'close', 'closing raised %s: %s' % (type(err).__name__, err))
        if op['how'] == 'close':
            img = bytes(d.b)
            if not F['sound']:
                self.image_check(op['file'], img, 'close-after-disk-error')
                F['h'] = None
                if not rec.violations:
                    self.newfile(op['file'], None)
                return
            F['disk'] = SimFile(img)
            F['mode'] = op['mode']
            F['h'] = self.h5.File(F['disk'], op['mode'])
            for g in F['groups']:
                self.verify(op['file'], g, 'after closing and reopening')
                if rec.violations:
                    return

    def x_newfile(self, op):
        try:
            self.files[op['file']]['h'].close()
        except Exception:
            pass
        self.newfile(op['file'], op['libver'])
        self.rec.count('op:newfile')

    def x_delete(self, op):
        F = self.files[op['file']]
        if F['h'] is None or not F['groups'] or F.get('mode') == 'r' or not F['sound']:
            raise W.Skip()
        g = sorted(F['groups'])[op['g'] % len(F['groups'])]
        try:
            del F['h'][g]
        except Exception:
            return
        G = F['groups'].pop(g)
        F.setdefault('gone', {}).setdefault(g, []).append(G)
        self.rec.count('op:delete')

    def x_death(self, op):
        """what would be left if the process died here, or had died at an earlier write"""
        F = self.files[op['file']]
        d = F['disk']
        if F['h'] is None or F.get('gone'):
            raise W.Skip()
        n = len(d.log)
        if op['frac'] == 1.0:       # just before the flush, in the middle of it, after it
            try:
                if F['sound']:
                    F['h'].flush()
            except Exception:
                pass
            n = len(d.log)
            k = max(0, n - op['back'])
        else:
            k = int(op['frac'] * n)
        self.rec.count('fault:death')
        self.image_check(op['file'], d.image(k, op['torn']), 'death')

    def image_check(self, fi, img, what):
        F = self.files[fi]
        rec = self.rec

        def child():
            out = dict(loaded=0, refused=0, bad=None)
            try:
                h = self.h5.File(SimFile(img), 'r')
            except Exception:
                out['unreadable'] = 1
                return out
            for g, G in sorted(F['groups'].items()):
                o = err = None
                try:
                    o = self.load_obj(h[g], G)
                except Exception as e:
                    err = e
                bad = self.judge(G, o, err, sound=False)
                out['refused' if err is not None else 'loaded'] += 1
                if bad:
                    out['bad'] = (G['cls'], bad)
                    return out
            return out
        r = in_child(child)
        rec.count('check:image')
        if r is None:
            rec.count('probe:hdf5-died-on-image')
            return
        if r.get('harness'):
            raise RuntimeError(r['harness'])
        rec.event('image', r.get('loaded'), r.get('refused'), r.get('unreadable'))
        rec.state(('image', what, r.get('loaded'), r.get('refused'), r.get('unreadable')))
        if r.get('loaded'):
            rec.count('probe:%s-loaded' % what)
        if r.get('refused'):
            rec.count('probe:%s-refused' % what)
        if r.get('unreadable'):
            rec.count('probe:%s-unreadable' % what)
        if r['bad']:
            rec.violate('death', r['bad'][0], '%s (%s)' % (r['bad'][1], what))

    def final(self, fi):
        F = self.files[fi]
        if F['h'] is None:
            return
        for g in F['groups']:
            self.verify(fi, g, 'at the end')
            if self.rec.violations:
                return
        if not F['sound']:
            return
        try:
            F['h'].close()
        except Exception as e:
            return self.rec.violate('save', 'close', 'closing raised %s: %s' % (type(e).__name__, e))
        h = self.h5.File(SimFile(bytes(F['disk'].b)), 'r')
        F['h'] = h
        for g in F['groups']:
            self.verify(fi, g, 'in the closed file')
            if self.rec.violations:
                return
