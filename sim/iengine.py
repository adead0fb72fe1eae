"""P12: interleaved, nested, abandoned, interrupted and concurrent iterations over functions and states."""
import copy
import math
import warnings

import numpy as np

from .core import Engine
from .fengine import EXC
from .fworld import DOMS, series
from .hooks import monitor, StepLimit
from .model import Snap, PROBE
from .sched import Scheduler, patched_locks, Deadlock
from .states import PNAMES

LIMIT = 2000000
HOW = ['list', 'for', 'tuple', 'enumerate', 'zipself', 'nested', 'unpack', 'map', 'zipother', 'break', 'raise', 'two', 'nextdefault', 'dict']


class Boom(Exception):
    """raised by the body of a loop"""


class Obj:
    def __init__(self, o, funcs, dom):
        self.o, self.funcs, self.dom = o, funcs, dom

    def cols(self):
        out = []
        for f in self.funcs:
            S = Snap(f)
            E = S.ev(PROBE)
            out += [(E[:, i], S.c[:, i].copy(), S.kind) for i in range(S.m)]
        return out

    def key(self):
        return tuple(Snap(f).key() for f in self.funcs)


class IterEngine(Engine):
    shrink_keys = ('ops', 'switches', 'objs')
    preload = ['funpy.vectorspaces']
    measure = 'distinct (operation, object kind, columns, iterations under way and their positions, outcome) situations and thread switch sites'
    rule = ('one run is a seeded history of 10-40 iterator operations over 1-4 shared functions and states, optionally ended by a '
            'scheduled multi-threaded phase; distinct = distinct digests of operations, positions, schedules and columns')
    real = ['funpy.fun', 'funpy.cheb', 'funpy.trig', 'funpy.vectorspaces', 'Python threads (scheduled)']
    stub = ['thread scheduler and locks']
    assumptions = ['when an object is changed in place between two steps, a later step may show the column as it is or as it was when the iteration started']
    quick_runs = 12000
    thorough_runs = 150000
    quick_wall = 60
    must_hit = ['op:start', 'op:step', 'op:abandon', 'op:read', 'op:inplace', 'op:prolong', 'op:construct', 'op:copyiter', 'op:threads', 'op:item',
                'fault:tick', 'probe:interleaved', 'probe:exhausted-again', 'probe:thread-switch'] + ['op:' + h for h in HOW]

    def __init__(self, prop):
        self.prop = prop

    # -------------------------------------------------------------------------------------------- generation
    def gen(self, rng, idx, tier):
        dom = list(rng.choice([list(d) for d in DOMS]))
        objs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            objs.append(dict(t=rng.choice(['fun', 'fun', 'fun', 'tech', 'cont', 'defl', 'tpc', 'tp', 'mp']), basis=rng.choice(['cheb', 'trig']),
                             m=rng.choice([1, 2, 2, 3, 3, 4, 6]), n=rng.choice([1, 2, 5, 9, 17]), s=rng.randrange(1 << 30), own=rng.random() < .5))
        w = dict(start=3, step=9, abandon=1, full=5, read=3, inplace=1, prolong=.7, construct=.6, copyiter=1, item=1, refetch=1)
        if rng.random() < .4:
            w = {k: v for k, v in w.items() if k in ('start', 'step') or rng.random() < .5}
        ks, ws = list(w), list(w.values())
        rate = rng.choice([0, 0, .08, .25])
        ops = []
        for _ in range(rng.choice([10, 18, 30]) * (2 if tier == 'thorough' and rng.random() < .3 else 1)):
            op = dict(op=rng.choices(ks, ws)[0], i=rng.randrange(16) if rng.random() < .7 else 0, j=rng.randrange(16), k=rng.randrange(32),
                      how=rng.choice(HOW), n=rng.choice([1, 1, 1, 2, 3, 5]))
            if op['op'] in ('step', 'full', 'start', 'read') and rng.random() < rate:
                op['fault'] = dict(exc=rng.choice(list(EXC)), at=int(math.exp(rng.uniform(0, math.log(120)))))
            ops.append(op)
        plan = dict(dom=dom, objs=objs, ops=ops, switches=[])
        if rng.random() < .45:
            nt = rng.choice([2, 2, 3, 4])
            per = [[dict(i=rng.randrange(16) if rng.random() < .4 else 0, how=rng.choice(HOW), k=rng.randrange(32)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
            plan['ops'].append(dict(op='threads', per=per, quantum=rng.choice([0, 0, 1, 2, 3, 7, 20])))
            for _ in range(rng.choice([1, 3, 6, 12])):
                th = rng.randrange(nt)
                plan['switches'].append(dict(th=th, k=rng.randrange(len(per[th])), t=rng.choice([0, rng.randrange(1, 40), rng.randrange(1, 40), rng.randrange(1, 400)]), to=rng.randrange(nt)))
        return plan

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            if op['op'] == 'threads':
                for th in range(len(op['per'])):
                    for q in range(len(op['per'][th])):
                        per = [list(p) for p in op['per']]
                        per[th].pop(q)
                        o2 = [dict(o) for o in plan['ops']]
                        o2[i]['per'] = per
                        yield dict(plan, ops=o2)
            if op.get('n', 1) > 1:
                o2 = [dict(o) for o in plan['ops']]
                o2[i]['n'] = 1
                yield dict(plan, ops=o2)
        for i, o in enumerate(plan['objs']):
            for k, v in (('n', 1), ('m', 2)):
                if o[k] > v:
                    ob = [dict(x) for x in plan['objs']]
                    ob[i][k] = v
                    yield dict(plan, objs=ob)

    # -------------------------------------------------------------------------------------------- objects
    def make(self, d, dom):
        Fun, vs = self.Fun, self.vs

        def fn(z):
            c = series(d['n'], d['m'], (d['s'] + z) % (1 << 30), d['basis'], False, .6)
            mid = c.shape[0] // 2 if d['basis'] == 'trig' else 0
            c[mid] = [3.0 * (i + 1) + .1 * z for i in range(d['m'])]      # every column is recognisable
            return Fun(coeffs=np.asfortranarray(c), domain=list(dom), type=d['basis'], simplify=False)
        u = fn(0)
        P = [vs.Parameter(**{nm: .5 + i}) for i, nm in enumerate(PNAMES[1:3])]
        t = d['t']
        if t == 'fun':
            return Obj(u, [u], dom)
        if t == 'tech':
            return Obj(u.onefun, [u.onefun], (-1.0, 1.0)) if d['basis'] == 'trig' or True else None
        if t in ('cont', 'mp'):
            s = vs.ContinuationState(a=P[0], u=u)
        elif t == 'defl':
            s = vs.DeflationState(u=u)
        elif t == 'tpc':
            s = vs.TwoParContState(p1=P[0], p2=P[1], u=u)
        else:
            s = vs.TwoParameterState(p1=P[0], p2=P[1], u=u, phi=fn(1))
        o = vs.MoorePenroseState(u=s, v=copy.deepcopy(s)) if t == 'mp' else s
        return Obj(o, list(s.funcs), dom)

    # -------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(7)
        import funpy.vectorspaces as vs
        from funpy.fun import Fun
        self.vs, self.Fun, self.rec, self.mon, self.plan = vs, Fun, rec, monitor(), plan
        self.dom = tuple(plan['dom'])
        self.objs = [self.make(d, self.dom) for d in plan['objs']]
        self.kinds = [d['t'] + d['basis'] + str(d['m']) for d in plan['objs']]
        # two entries may be views of one state: iterate a state and the function inside it
        for d, o in list(zip(plan['objs'], self.objs)):
            if d['t'] not in ('fun', 'tech') and d['own']:
                self.objs.append(Obj(o.funcs[0], [o.funcs[0]], self.dom))
                self.kinds.append('inner' + d['basis'] + str(d['m']))
        if not self.objs:
            return
        self.its = []          # live iterations: dict(o=, it=, pos=, start=cols)
        self.items = []        # columns handed out: (item, key)
        for op in plan['ops']:
            rec.simtime += 1
            self.before = [o.key() for o in self.objs]
            self.touched = set()
            getattr(self, 'x_' + op['op'])(op)
            if rec.violations:
                return
            for q, (o, kk) in enumerate(zip(self.objs, self.before)):
                if q in self.touched:
                    continue
                rec.count('check:unchanged')
                if o.key() != kk:
                    return rec.violate('changed', op['op'], 'iterating (or reading) changed the object (%s)' % self.kinds[q])
            for it, kk in self.items[-12:]:
                if Snap(it).key() != kk:
                    return rec.violate('item', op['op'], 'a column handed out earlier changed')

    def obj(self, op):
        q = op['i'] % len(self.objs)
        return q, self.objs[q]

    def check_item(self, q, item, pos, start, what, now=None):
        """the column at position pos (as it was when the iteration started, or as it is)"""
        rec = self.rec
        rec.count('check:column')
        now = now or self.objs[q].cols()
        for cols in (now, start):
            if pos < len(cols):
                d = self.same(item, cols[pos], q)
                if d is None:
                    break
        else:
            which = [i for i, c in enumerate(now) if self.same(item, c, q) is None]
            rec.violate('column', what, 'step %d did not give column %d%s (%s)' % (pos, pos, ', but column %d' % which[0] if which else ': %s' % d, self.kinds[q]))
            return False
        return True

    def same(self, item, col, q):
        try:
            S = Snap(item)
        except Exception as e:
            return 'not a function: %r' % (e,)
        E, c, kind = col
        if S.m != 1 or S.kind != kind:
            return '%d columns, %s' % (S.m, S.kind)
        if S.dom != tuple(self.objs[q].dom):
            return 'on %s' % (S.dom,)
        d = float(np.max(np.abs(S.ev(PROBE)[:, 0] - E)))
        return None if d <= 1e-8 * (1e-3 + float(np.max(np.abs(E)))) else 'off by %.3g' % d

    def guarded(self, op, thunk, target=None):
        """('ok', value) | ('fault', None) | ('error', None)"""
        rec, k = self.rec, op['op']
        ft = op.get('fault')
        self.mon.start(limit=LIMIT, at=ft['at'] if ft else None, exc=EXC[ft['exc']]('injected') if ft else None)
        try:
            return 'ok', thunk()
        except StepLimit:
            rec.violate('no-progress', k, 'the iteration does not end')
            return 'error', None
        except StopIteration:
            return 'stop', None
        except BaseException as e:
            self.mon.stop()
            if ft and self.mon.fired is not None:
                rec.count('fault:tick')
                rec.event(k, 'interrupted', self.mon.fired[0])
                return 'fault', None
            rec.violate('error', k, '%s: %s' % (type(e).__name__, e))
            return 'error', None
        finally:
            self.mon.stop()

    # ---- operations
    def x_start(self, op):
        q, o = self.obj(op)
        self.rec.count('op:start')
        st, it = self.guarded(op, lambda: iter(o.o))
        if st != 'ok':
            return
        if any(e['q'] == q for e in self.its):
            self.rec.count('probe:interleaved')
        self.its.append(dict(q=q, it=it, pos=0, start=o.cols(), done=False))
        if len(self.its) > 6:
            self.its.pop(0)
        self.rec.event('start', q)

    def x_step(self, op):
        rec = self.rec
        if not self.its:
            return
        e = self.its[op['j'] % len(self.its)]
        for _ in range(op['n']):
            rec.count('op:step')
            n = len(e['start'])
            st, item = self.guarded(op, lambda: next(e['it']))
            rec.state(('step', self.kinds[e['q']], e['pos'], tuple(sorted((x['pos'], x['q'] == e['q']) for x in self.its)), st))
            if st == 'fault':
                self.its = [x for x in self.its if x is not e]
                return
            if st == 'error':
                return
            rec.event('step', e['q'], e['pos'], st)
            if st == 'stop':
                if e['pos'] != n:
                    return rec.violate('column', 'step', 'the iteration ended after %d of %d columns (%s)' % (e['pos'], n, self.kinds[e['q']]))
                if e['done']:
                    rec.count('probe:exhausted-again')
                e['done'] = True
                continue
            if e['pos'] >= n:
                return rec.violate('column', 'step', 'a step beyond the last of %d columns gave another one (%s)' % (n, self.kinds[e['q']]))
            if not self.check_item(e['q'], item, e['pos'], e['start'], 'step'):
                return
            e['pos'] += 1
            self.keep(item)

    def keep(self, item):
        for o in self.objs:
            for f in o.funcs:
                if f is item or getattr(f, 'onefun', None) is item:
                    self.rec.violate('item', 'step', 'iterating handed out the object itself')
        self.items.append((item, Snap(item).key()))

    def x_abandon(self, op):
        if self.its:
            self.rec.count('op:abandon')
            e = self.its.pop(op['j'] % len(self.its))
            if op['k'] & 1 and hasattr(e['it'], 'close'):
                e['it'].close()
            self.rec.event('abandon', e['q'], e['pos'])

    def x_refetch(self, op):
        """iter() of an iterator is the iterator itself, at its position"""
        if self.its:
            e = self.its[op['j'] % len(self.its)]
            self.rec.count('op:refetch')
            e['it'] = iter(e['it'])

    def loop(self, o, how, k, other):
        """one complete iteration; list of (object index 0/1, position, item), or one tuple per restarted iteration"""
        x, out = o.o, []
        if how == 'list':
            out += [(0, i, c) for i, c in enumerate(list(x))]
        elif how == 'tuple':
            out += [(0, i, c) for i, c in enumerate(tuple(x))]
        elif how == 'for':
            i = 0
            for c in x:
                out.append((0, i, c))
                i += 1
        elif how == 'enumerate':
            for i, c in enumerate(x):
                out.append((0, i, c))
        elif how == 'zipself':
            for i, (c, d) in enumerate(zip(x, x)):
                out += [(0, i, c), (0, i, d)]
        elif how == 'nested':
            for i, c in enumerate(x):
                out.append((0, i, c))
                for j, d in enumerate(x):
                    out.append((0, j, d))
        elif how == 'unpack':
            out += [(0, i, c) for i, c in enumerate([*x])]
        elif how == 'map':
            out += [(0, i, c) for i, c in map(lambda p: p, enumerate(x))]
        elif how == 'dict':
            out += [(0, i, c) for i, c in {i: c for i, c in enumerate(x)}.items()]
        elif how == 'zipother':
            for i, (c, d) in enumerate(zip(x, other.o)):
                out += [(0, i, c), (1, i, d)]
        elif how in ('break', 'raise'):
            n = k % (len(o.cols()) + 1)
            try:
                for i, c in enumerate(x):
                    if i == n:
                        if how == 'raise':
                            raise Boom()
                        break
                    out.append((0, i, c))
            except Boom:
                pass
            out.append('partial')
            out += [(0, i, c) for i, c in enumerate(x)]
        elif how == 'two':
            a, b = iter(x), iter(x)
            i = j = 0
            n = len(o.cols())
            bits = k
            while i < n or j < n:
                if (bits & 1 and i < n) or j >= n:
                    out.append((0, i, next(a)))
                    i += 1
                else:
                    out.append((0, j, next(b)))
                    j += 1
                bits = (bits >> 1) | ((bits & 1) << 4)
        elif how == 'nextdefault':
            a = iter(x)
            i = 0
            while True:
                c = next(a, None)
                if c is None:
                    break
                out.append((0, i, c))
                i += 1
        return out

    def judge(self, how, q, q2, out, starts, now=None):
        """every column exactly once and in order, in each of the iterations of the loop"""
        rec = self.rec
        n, n2 = len(starts[q]), len(starts[q2])
        for t in out:
            if t != 'partial':
                w = (q, q2)[t[0]]
                if not self.check_item(w, t[2], t[1], starts[w], how, now and now[w]):
                    return
        pos = [t[1] for t in out if t != 'partial' and t[0] == 0]
        if how == 'nested':
            ok = len(pos) == n + n * n
        elif how in ('zipself', 'two'):
            ok = len(pos) == 2 * n
        elif how == 'zipother':
            ok = len(pos) == min(n, n2)
        elif how in ('break', 'raise'):
            i = out.index('partial')
            ok = [t[1] for t in out[i + 1:]] == list(range(n)) and [t[1] for t in out[:i]] == list(range(i))
        else:
            ok = pos == list(range(n))
        if not ok:
            rec.violate('column', how, '%d columns, the loops saw positions %s (%s)' % (n, pos[:40], self.kinds[q]))

    def x_full(self, op):
        q, o = self.obj(op)
        q2 = op['j'] % len(self.objs)
        self.rec.count('op:' + op['how'])
        starts = {q: o.cols(), q2: self.objs[q2].cols()}
        if self.its and any(e['q'] == q for e in self.its):
            self.rec.count('probe:interleaved')
        st, out = self.guarded(dict(op, op=op['how']), lambda: self.loop(o, op['how'], op['k'], self.objs[q2]))
        if st == 'stop':
            return self.rec.violate('column', op['how'], 'an iteration ended early (%s)' % self.kinds[q])
        if st != 'ok':
            return
        self.judge(op['how'], q, q2, out, starts)
        self.rec.event(op['how'], q, len(out))
        self.rec.state((op['how'], self.kinds[q], q == q2, tuple(sorted((x['pos'], x['q'] == q) for x in self.its))))
        if out and out[-1] != 'partial' and not self.rec.violations:
            self.keep(out[-1][2])

    def x_read(self, op):
        q, o = self.obj(op)
        x, f, k = o.o, o.funcs[0], op['k']
        self.rec.count('op:read')
        what = op['how']
        fs = dict(list=lambda: str(f), tuple=lambda: f.coeffs.copy(), enumerate=lambda: f.values.copy(), zipself=lambda: len(f),
                  nested=lambda: f.shape, unpack=lambda: np.sum(f), map=lambda: copy.deepcopy(x), zipother=lambda: f + f,
                  two=lambda: f(np.array([-.1, .2]) * .1 + f_mid(o)), nextdefault=lambda: repr(f), dict=lambda: np.diff(f))
        fs['for'] = lambda: -f
        fs['break'] = lambda: f == f
        fs['raise'] = lambda: x[k % len(o.cols())]
        st, r = self.guarded(op, fs[what])
        if st == 'ok' and what == 'raise':
            self.check_item(q, r, k % len(o.cols()), o.cols(), 'index')
        self.rec.event('read', what, st)

    def x_copyiter(self, op):
        """a copy made while iterations are under way is iterated from the beginning, and its iterations are its own"""
        q, o = self.obj(op)
        self.rec.count('op:copyiter')
        st, c = self.guarded(op, lambda: copy.deepcopy(o.o))
        if st != 'ok':
            return
        try:
            it = iter(c)
            first = next(it)
            rest = list(c)
            tail = list(it)
        except Exception as e:
            return self.rec.violate('error', 'copyiter', '%s: %s' % (type(e).__name__, e))
        starts = o.cols()
        if len(rest) != len(starts) or len(tail) != len(starts) - 1:
            return self.rec.violate('column', 'copyiter', 'the copy gave %d and 1+%d columns of %d' % (len(rest), len(tail), len(starts)))
        for i, c in list(enumerate(rest)) + [(0, first)] + [(i + 1, t) for i, t in enumerate(tail)]:
            if not self.check_item(q, c, i, starts, 'copyiter'):
                return
        self.rec.event('copyiter', q)

    def x_construct(self, op):
        """building another function whose callback iterates over the shared one"""
        q, o = self.obj(op)
        f = o.funcs[0]
        if not hasattr(f, 'onefun'):
            return
        self.rec.count('op:construct')
        starts = o.cols()
        seen = []

        def cb(x):
            cs = list(o.o)
            seen.append(len(cs))
            return sum(c(x) for c in cs)
        st, g = self.guarded(op, lambda: self.Fun(op=cb, domain=list(self.dom), type=f.type))
        if st != 'ok':
            return
        if any(n != len(starts) for n in seen):
            return self.rec.violate('column', 'construct', 'an iteration inside a callback saw %s columns of %d' % (sorted(set(seen)), len(starts)))
        E = sum(c[0] for c in starts)
        d = float(np.max(np.abs(Snap(g).ev(PROBE)[:, 0] - E)))
        if not d <= 1e-6 * float(np.max(np.abs(E))):
            self.rec.violate('column', 'construct', 'the sum of the columns is off by %.3g' % d)
        self.rec.event('construct', q, len(seen))

    def mark(self, q):
        mine = {id(f) for f in self.objs[q].funcs}
        self.touched |= {i for i, o in enumerate(self.objs) if any(id(f) in mine for f in o.funcs)}

    def x_inplace(self, op):
        q, o = self.obj(op)
        f = o.funcs[op['k'] % len(o.funcs)]
        if not hasattr(f, 'onefun'):
            return
        self.mark(q)
        self.rec.count('op:inplace')
        c = [2.0, -.5, 1.5][op['k'] % 3]
        if max(np.max(np.abs(x[0])) for x in o.cols()) > 1e5:
            c = .01

        def thunk():
            nonlocal f
            if op['j'] & 1:
                f *= c
            else:
                f += c
        self.guarded(op, thunk)
        self.rec.event('inplace', q)

    def x_prolong(self, op):
        q, o = self.obj(op)
        f = o.funcs[op['k'] % len(o.funcs)]
        n = Snap(f).n + [2, 4, 10][op['k'] % 3]
        if n > 90 or not hasattr(f, 'onefun'):
            return
        self.mark(q)
        self.rec.count('op:prolong')
        self.guarded(op, lambda: f.prolong(n))
        self.rec.event('prolong', q, n)

    def x_item(self, op):
        """write to a column handed out earlier: it is the caller's"""
        if not self.items:
            return
        j = op['j'] % len(self.items)
        it, _ = self.items[j]
        if not hasattr(it, 'onefun'):
            return
        self.rec.count('op:item')
        it *= 3.0
        it += 1.0
        self.items[j] = (it, Snap(it).key())
        self.rec.event('item')

    def x_threads(self, op):
        rec = self.rec
        rec.count('op:threads')
        per = op['per']
        nt = len(per)
        starts = [o.cols() for o in self.objs]
        sch = Scheduler(self.mon, nt, self.plan['switches'], op['quantum'], LIMIT, rec)
        outs = [[] for _ in per]

        def body(th):
            for k, w in enumerate(per[th]):
                q, q2 = w['i'] % len(self.objs), w['k'] % len(self.objs)
                sch.begin(th, k)
                try:
                    r = ('ok', self.loop(self.objs[q], w['how'], w['k'], self.objs[q2]))
                except StopIteration:
                    r = ('stop', None)
                except (Exception, StepLimit) as e:
                    r = ('error', e)
                sch.end(th)
                outs[th].append((w, q, q2, r))
        with patched_locks():
            sch.run(body)
        rec.count('probe:thread-switch', sch.nsw)
        rec.event('threads', nt, sch.nsw)
        for th in range(nt):
            for w, q, q2, (st, r) in outs[th]:
                if st == 'error':
                    return rec.violate('error' if not isinstance(r, StepLimit) else 'no-progress', 'threads', '%s: %s' % (type(r).__name__, r))
                if st == 'stop':
                    return rec.violate('column', 'threads', 'an iteration ended early (%s)' % self.kinds[q])
                self.judge('threads' if False else w['how'], q, q2, r, {q: starts[q], q2: starts[q2]}, starts)
                if rec.violations:
                    return


def f_mid(o):
    return .5 * (o.dom[0] + o.dom[1])
