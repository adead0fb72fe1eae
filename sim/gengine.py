"""P09: adaptive construction from simulated callbacks that raise, return garbage, keep state or use the library themselves."""
import functools
import math
import os
import pickle
import threading
import warnings

import numpy as np
from numpy.polynomial import chebyshev as C

from .core import Engine
from .fengine import EXC, alike
from .fworld import DOMS as DOMS0, series
from .hooks import monitor, StepLimit
from .model import Snap, PROBE, trig_eval

DOMS = DOMS0 + [(0.0, 1000.0), (-300.0, 300.0)]

LIMIT = 600000
RAISES = dict(EXC, StopIteration=StopIteration, AttributeError=AttributeError, IndexError=IndexError, TypeError=TypeError, ValueError=ValueError,
              AssertionError=AssertionError, GeneratorExit=GeneratorExit, RuntimeError=RuntimeError, SystemExit=SystemExit)
SMOOTH = dict(cheb=['geo', 'geo', 'geo', 'exp', 'wave', 'runge', 'const', 'zero'], trig=['geo', 'geo', 'geo', 'expcos', 'ratio', 'const', 'zero'])
ROUGH = ['abs', 'sign', 'sqrt', 'noise', 'log', 'pole', 'nan', 'inf']
STYLES = ['function', 'function', 'object', 'method', 'partial', 'inplace', 'buffer', 'readonly', 'reenter', 'locked', 'masked', 'number']
GARBAGE = ['nan', 'inf', '-inf', 'allnan', 'short', 'long', 'row', 'scalar', 'empty', 'none', 'text', 'grow']
DETERMINISTIC = [s for s in STYLES]


class Target:
    """one column: what the callback is supposed to compute, as a function of z in [-1, 1]"""
    def __init__(self, fam, basis, s, amp):
        self.fam, self.basis, self.amp = fam, basis, amp
        r = np.random.RandomState(s % (1 << 31))
        self.rate = [.1, .4, .7, .9][r.randint(4)]
        self.deg = int(min(400, math.ceil(math.log(1e-17) / math.log(self.rate))))
        self.a, self.b = r.uniform(.3, 3), r.uniform(-1, 1)
        if fam == 'geo':
            self.c = series(self.deg, 1, s % (1 << 31), basis, False, self.rate)

    def __call__(self, z):
        z = np.asarray(z, float)
        f, a, b = self.fam, self.a, self.b
        with np.errstate(all='ignore'):
            if f == 'geo':
                sh = z.shape
                y = C.chebval(z.ravel(), self.c[:, 0]) if self.basis == 'cheb' else np.real(trig_eval(self.c, z.ravel())).ravel()
                y = y.reshape(sh)
            elif f == 'exp':
                y = np.exp(a * z + b)
            elif f == 'wave':
                y = np.cos(12 * a * z + b) + .3 * z
            elif f == 'runge':
                y = 1 / (1 + a * a * z * z)
            elif f == 'expcos':
                y = np.exp(np.sin(np.pi * z) * min(a, 2)) + b
            elif f == 'ratio':
                y = 1 / (1.2 + a + np.cos(np.pi * z + b))
            elif f == 'const':
                y = b + 1.5 + 0 * z
            elif f == 'zero':
                y = 0 * z
            elif f == 'abs':
                y = np.abs(z - .3 * b) + .1
            elif f == 'sign':
                y = np.sign(z - .3 * b) + .1 * z
            elif f == 'sqrt':
                y = np.sqrt(np.abs(z - .3 * b))
            elif f == 'noise':
                y = np.modf(np.sin(z * 12.9898 + b) * 43758.5453)[0]
            elif f == 'log':
                y = np.log(z - .3 * b)
            elif f == 'pole':
                y = 1 / (z - .3 * b)
            elif f == 'nan':
                y = np.cos(z) + np.nan
            else:
                y = np.cos(z) + np.inf
        return self.amp * y


class Callback:
    """the simulated callable: logs its calls and misbehaves on schedule"""
    def __init__(self, eng, tgts, op, dom, faults, dim2=False):
        self.eng, self.tgts, self.op, self.dom, self.faults, self.dim2 = eng, tgts, op, dom, faults, dim2
        self.calls = []
        self.raised = None
        self.fired = []
        self.bufs = {}
        self.outside = None
        self.style = op['style']
        if self.style == 'locked':
            self.lock = threading.Lock()         # such an object can not be copied

    def toz(self, x):
        a, b = self.dom
        return (2 * np.asarray(x, float) - a - b) / (b - a)

    def __call__(self, *xs):
        x = xs[0]
        n = len(self.calls) + 1
        self.calls.append(int(np.size(x)))
        if n > 4000:
            raise StepLimit('more than 4000 calls of the callback')
        if self.op['how'] == 'op':
            lo, hi = float(np.min(x)), float(np.max(x))
            slack = 4 * np.finfo(float).eps * max(abs(self.dom[0]), abs(self.dom[1]))
            if not (lo >= self.dom[0] - slack and hi <= self.dom[1] + slack):
                self.outside = (lo, hi)
        for q in self.faults:
            if q['kind'] == 'raise' and (n == q['at'] or (q['sticky'] and n > q['at'])):
                self.fired.append('raise')
                self.raised = RAISES[q['exc']]('from the callback')
                raise self.raised
        if self.op['how'] == 'op':
            z = self.toz(x)
            y = self.tgts[0](z) if len(self.tgts) == 1 else np.stack([t(z) for t in self.tgts], axis=-1)
        else:
            y = self.eng.outer(self.op, *xs)
        for q in self.faults:
            if q['kind'] != 'raise' and (n == q['at'] or (q['sticky'] and n > q['at'])):
                y2 = self.spoil(q, y, x)
                if y2 is not y:
                    self.fired.append(q['kind'])
                    return y2
        s = self.style
        if s == 'inplace' and isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = 77.0
        elif s == 'buffer':
            if np.shape(y) in self.bufs:
                b, _ = self.bufs[np.shape(y)]
                b[...] = y
            else:
                b = np.array(y)
            self.bufs[np.shape(y)] = (b, np.array(y))
            return b
        elif s == 'readonly':
            y = np.array(y)
            y.setflags(write=False)
        elif s == 'masked':                  # works for arrays of points only
            y = y + 0.0                      # (a number, if asked for a single one)
            y[x > 1e300] = 0.0
        elif s == 'number' and y.ndim <= 1 and np.all(y == y.ravel()[0]):      # a constant, as a plain number
            return float(y.ravel()[0])
        elif s == 'reenter':
            self.eng.use_library(n)
        return y

    def spoil(self, q, y, x):
        k, n = q['kind'], np.size(x)
        if k in ('nan', 'inf', '-inf'):
            y = np.array(y, float)
            if y.ndim == 0:
                return np.asarray(float(k))
            y.reshape(-1)[q['pos'] % y.size] = float(k)
            return y
        if k == 'allnan':
            return np.asarray(y) * np.nan
        if np.ndim(x) == 0:
            return y
        f = 1.0 + np.zeros(n)
        return dict(short=lambda: np.asarray(y)[:max(1, n // 2)], long=lambda: np.concatenate([np.asarray(y)] * 2), row=lambda: np.asarray(y).reshape(1, -1),
                    scalar=lambda: 3.0, empty=lambda: np.empty(0), none=lambda: None, text=lambda: 'oops', grow=lambda: np.stack([f] * 3, axis=1))[k]()


def wrap(cb, style):
    if style == 'function':
        return lambda *x: cb(*x)
    if style == 'method':
        return cb.__call__
    if style == 'partial':
        return functools.partial(Callback.__call__, cb)
    if style in ('object', 'locked'):
        return cb
    return lambda *x: cb(*x)


class BuildEngine(Engine):
    measure = 'distinct (basis, way, families, callback style, faults fired, refinement depth, options, outcome) situations'
    rule = ('one run is a seeded history of 1-4 constructions from simulated callbacks, most misbehaving at a chosen call or interrupted '
            'at a chosen source line, each followed by control constructions and a repetition; distinct = distinct digests of situations')
    real = ['funpy.fun', 'funpy.cheb', 'funpy.trig', 'numpy', 'scipy.fft']
    stub = ['the callables (scripted)']
    assumptions = ['resolvable callables have coefficients that decay over their whole spectrum', 'callables compute functions of the point, apart from injected faults',
                   'accuracy claims for non-smooth callables only at the default tolerance']
    quick_runs = 20000
    thorough_runs = 200000
    quick_wall = 60
    must_hit = ['op:op', 'op:compose', 'op:compose2', 'fault:tick', 'fault:raise', 'probe:resolved', 'probe:unresolved', 'probe:raised', 'probe:deep',
                'probe:recovered', 'probe:several-columns', 'probe:must-resolve'] + ['fault:' + g for g in GARBAGE] + ['style:' + s for s in set(STYLES)]

    def __init__(self, prop):
        self.prop = prop

    # ------------------------------------------------------------------------------------------- generation
    def gen(self, rng, idx, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            basis = rng.choice(['cheb', 'trig'])
            how = rng.choice(['op'] * 6 + ['compose', 'compose', 'compose2'])
            cols = rng.choice([1, 1, 1, 2, 3]) if how == 'op' else 1
            fams = [rng.choice(SMOOTH[basis]) if rng.random() < .85 else rng.choice(ROUGH) for _ in range(cols)]
            op = dict(how=how, basis=basis, dom=list(rng.choice([list(d) for d in DOMS])), fams=fams, s=rng.randrange(1 << 30), amp=rng.choice([1, 1, 1, 1e-3, 1e4]),
                      shape=rng.choice(['list', 'list', 'wide'] if basis == 'cheb' else ['list']) if cols > 1 else rng.choice(['plain', 'plain', 'list']), style=rng.choice(STYLES), outer=rng.choice(['cos', 'square', 'exp', 'shift']),
                      again=True)
            kw = {}
            if rng.random() < .3:
                kw['resample'] = rng.choice(['nested', 'resample'])
            if rng.random() < .25:
                kw['eps'] = rng.choice([1e-6, 1e-10, 1e-12])
            if rng.random() < .2 and basis == 'cheb':
                kw['maxLength'] = rng.choice([33, 129, 1025])
            if rng.random() < .2:
                kw['minSamples'] = rng.choice([5, 17, 33, 100])
            if rng.random() < .15:
                kw['simplify'] = False
            op['kw'] = kw if how == 'op' else {}
            r = rng.random()
            if r < .55:
                op['faults'] = [dict(kind=rng.choice(['raise'] * 6 + GARBAGE), at=rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]), sticky=rng.random() < .3, pos=rng.randrange(5000),
                                     exc=rng.choice(list(RAISES)), col=rng.randrange(3)) for _ in range(rng.choice([1, 1, 1, 2]))]
            elif r < .8:
                op['tick'] = dict(at=max(1, int(math.exp(rng.uniform(0, math.log(700))))), exc=rng.choice(list(EXC)))
            ops.append(op)
        return dict(ops=ops)

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(**kw):
                o2 = [dict(o) for o in plan['ops']]
                o2[i].update(kw)
                return dict(plan, ops=o2)
            if len(op['fams']) > 1:
                for j in range(len(op['fams'])):
                    yield put(fams=op['fams'][:j] + op['fams'][j + 1:])
            for k, v in (('style', 'function'), ('amp', 1), ('dom', [-1.0, 1.0]), ('faults', None), ('tick', None)):
                if op.get(k) not in (v, None):
                    yield put(**{k: v})
            for k in op['kw']:
                yield put(kw={a: b for a, b in op['kw'].items() if a != k})
            for j, q in enumerate(op.get('faults') or []):
                if len(op['faults']) > 1:
                    yield put(faults=op['faults'][:j] + op['faults'][j + 1:])
                if q['sticky']:
                    yield put(faults=[dict(x, sticky=False) if x is q else x for x in op['faults']])

    # ------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(7)
        import funpy.fun as ff
        self.ff, self.Fun, self.rec, self.mon = ff, ff.Fun, rec, monitor()
        if not plan['ops']:
            return
        last = self.first(plan['ops'][-1])
        control = self.control()
        for i, op in enumerate(plan['ops']):
            rec.simtime += 1
            self.build(op, last if i == len(plan['ops']) - 1 else None)
            if rec.violations:
                return
            rec.count('check:control')
            c = self.control()
            bad = [k for k in control if not alike(control[k], c.get(k))]
            if bad:
                return rec.violate('aftermath', op['how'], 'after the construction, %s differ from a fresh process [%s]' % (', '.join(bad), self.text(op)))

    def control(self):
        """unrelated constructions, evaluations and queries, as bytes"""
        F = self.Fun
        out = {}
        for b in ('cheb', 'trig'):
            f = F(op=lambda x: np.exp(np.sin(np.pi * x)), domain=[-1, 1], type=b)
            g = F(op=[lambda x: np.cos(np.pi * x), lambda x: 1 + 0 * x], domain=[0, 2], type=b)
            out[b + ' construction'] = (Snap(f).key(), Snap(g).key(), bool(f.onefun.ishappy), float(f.onefun.eps), int(f.onefun.maxLength))
            out[b + ' evaluation'] = f(np.linspace(-1, 1, 7)).tobytes()
            out[b + ' derivative'] = Snap(np.diff(f)).key()
            out[b + ' product'] = Snap(f * f).key()
            out[b + ' exp'] = Snap(np.exp(f)).key()
        return out

    def use_library(self, n):
        """what a re-entrant callback does: build, evaluate and combine other functions"""
        F = self.Fun
        b = ('cheb', 'trig')[n % 2]
        f = F(op=lambda x: np.cos(np.pi * x), domain=[-1, 1], type=b)
        g = f * f + f
        float(np.real(g(np.array([.3]))).ravel()[0])
        np.diff(g)

    def outer(self, op, *v):
        """the scalar function applied by a composition"""
        a = v[0] if len(v) == 1 else v[0] + .5 * v[1]
        return dict(cos=np.cos, square=lambda t: t * t + .5 * t, exp=lambda t: np.exp(t / (1 + 5e-5 * op['amp']) / op['amp']), shift=lambda t: t + 1.0)[op['outer']](
            a / op['amp'] if op['outer'] == 'cos' else a)

    def first(self, op):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = pickle.dumps(self.summary(self.attempt(op, False)))
                off = 0
                while off < len(d):
                    off += os.write(w, d[off:off + 60000])
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            b = fh.read()
        os.waitpid(pid, 0)
        return pickle.loads(b)

    def summary(self, at):
        st, f, cbs, S = at
        if st == 'ok':
            return ('ok', S.key(), bool(f.onefun.ishappy), [c.calls for c in cbs])
        return (st, type(f).__name__, str(f)) if st == 'raise' else (st,)

    def attempt(self, op, faulty):
        """(status, function or exception, callbacks, picture)"""
        mon = self.mon
        tg = [Target(fam, op['basis'], op['s'] + 77 * j, op['amp']) for j, fam in enumerate(op['fams'])]
        fl = (op.get('faults') or []) if faulty else []
        self.inner = []
        if op['how'] == 'op':
            if op['shape'] == 'wide':
                cbs = [Callback(self, tg, op, op['dom'], fl)]
                arg = wrap(cbs[0], op['style'])
            else:
                cbs = [Callback(self, [t], op, op['dom'], [q for q in fl if q['col'] % len(tg) == j]) for j, t in enumerate(tg)]
                arg = [wrap(c, op['style']) for c in cbs]
                if op['shape'] == 'plain' and len(arg) == 1:
                    arg = arg[0]
            go = lambda: self.Fun(op=arg, domain=list(op['dom']), type=op['basis'], **op['kw'])
        else:
            cbs = [Callback(self, tg, op, op['dom'], fl)]
            arg = wrap(cbs[0], op['style'])
            fs = []
            for j in range(2 if op['how'] == 'compose2' else 1):
                c = series(6, 1, (op['s'] + 5 * j) % (1 << 31), op['basis'], False, .5) * op['amp']
                fs.append(self.Fun(coeffs=np.asfortranarray(c), domain=list(op['dom']), type=op['basis'], simplify=False))
            self.inner = [(f, Snap(f)) for f in fs]
            go = lambda: self.ff.compose(fs[0], arg, *fs[1:])
        t = op.get('tick') if faulty else None
        mon.start(limit=LIMIT, at=t['at'] if t else None, exc=EXC[t['exc']]('injected') if t else None)
        try:
            f = go()
            mon.stop()
            return 'ok', f, cbs, Snap(f)
        except StepLimit as e:
            return 'stuck', e, cbs, None
        except BaseException as e:
            if t and mon.fired is not None:
                return 'tick', e, cbs, None
            return 'raise', e, cbs, None
        finally:
            mon.stop()

    def text(self, op):
        return '%s %s %s %s, %s callback, %s%s%s' % (op['how'], op['basis'], op['fams'], op['dom'], op['style'], op['kw'],
                                                   ', faults %s' % [(q['kind'], q['at'], q['sticky']) for q in op['faults']] if op.get('faults') else '', ', amplitude %g' % op['amp'])

    def build(self, op, ref):
        rec = self.rec
        rec.count('op:' + op['how'])
        rec.count('style:' + op['style'])
        if len(op['fams']) > 1:
            rec.count('probe:several-columns')
        if op.get('faults') or op.get('tick'):
            at = self.attempt(op, True)
            self.judge(op, at, True)
            if rec.violations:
                return
            failed = at[0] != 'ok'
        else:
            failed = False
        at = self.attempt(op, False)
        self.judge(op, at, False)
        if rec.violations:
            return
        if failed and at[0] == 'ok':
            rec.count('probe:recovered')
        if ref is not None:
            rec.count('check:first-attempt')
            s = self.summary(at)
            if not alike(s, ref):
                return rec.violate('history', op['how'], 'the construction gives another result than as the first thing in a process [%s]' % self.text(op))

    def truth(self, op, z):
        if op['how'] == 'op':
            return np.stack([Target(fam, op['basis'], op['s'] + 77 * j, op['amp'])(z) for j, fam in enumerate(op['fams'])], axis=1)
        v = [S.ev(z)[:, 0] for _, S in self.inner]
        return np.real(self.outer(op, *v)).reshape(-1, 1)

    def judge(self, op, at, faulty):
        rec = self.rec
        st, f, cbs, S = at
        V = lambda oracle, msg: rec.violate(oracle, op['how'], '%s [%s]' % (msg, self.text(op)))
        calls = [c.calls for c in cbs]
        fired = [x for c in cbs for x in c.fired]
        for x in set(fired):
            rec.count('fault:' + x)
        depth = max(len(c) for c in calls)
        if depth > 5:
            rec.count('probe:deep')
        happy = bool(f.onefun.ishappy) if st == 'ok' else None
        rec.event(op['how'], op['basis'], st, happy, tuple(map(tuple, calls)), tuple(fired))
        rec.state((op['how'], op['basis'], tuple(op['fams']), op['style'], tuple(sorted(set(fired))), depth, tuple(sorted((k, str(v)) for k, v in op['kw'].items())), st, happy))
        if st == 'stuck':
            return V('no-progress', str(f))
        # -- sampling
        rec.count('check:sampling')
        top = op['kw'].get('maxLength', 16385 if op['basis'] == 'cheb' else 4096)
        start = max(17, op['kw'].get('minSamples', 17))
        for c in calls:
            if len(c) > 60 or sum(c) > 4.5 * max(top, 2 * start) + 50:
                return V('sampling', '%d points in %d calls' % (sum(c), len(c)))
        for c in cbs:
            if c.outside is not None:
                return V('sampling', 'the callback was asked for points in [%.17g, %.17g]' % c.outside)
            for b, want in c.bufs.values():
                rec.count('check:buffer')
                if b.tobytes() != want.tobytes():
                    return V('buffer', 'an array returned by the callback was written to')
        for g, P in self.inner:
            if not P.same(Snap(g)):
                return V('operand', 'the composed function changed: %s' % P.diff_text(Snap(g)))
        if st == 'tick':
            rec.count('fault:tick')
            return
        raised = [c for c in cbs if c.raised is not None]
        if st == 'raise':
            rec.count('probe:raised')
            if raised:
                rec.count('check:exception')
                if f is not raised[0].raised:
                    return V('exception', 'the callback raised %r, the caller got %s: %s' % (raised[0].raised, type(f).__name__, f))
                return
            if fired or not self.resolvable(op):
                return
            return V('exception', 'the construction raised %s: %s' % (type(f).__name__, f))
        if raised:
            return V('exception', 'the exception %r did not reach the caller' % raised[0].raised)
        # -- a function was returned
        if S.m != len(op['fams']) and happy and not {'grow', 'scalar'} & set(fired):
            return V('resolved', 'resolved function with %d columns for %d callables' % (S.m, len(op['fams'])))
        if S.n > max(top, start + 1):
            return V('sampling', '%d samples kept, limit %d' % (S.n, top))
        if not happy:
            rec.count('probe:unresolved')
            if not fired and self.resolvable(op) and not op['kw'].get('maxLength') and self.must(op):
                return V('resolved', 'a smooth callable was not resolved')
            return
        rec.count('probe:resolved')
        if fired == [] and self.must(op):
            rec.count('probe:must-resolve')
        if not self.strict(op):
            return
        if {'scalar', 'grow'} & set(fired) and (op['shape'] == 'wide' or 'scalar' in fired or fired.count('grow') >= max(len(c) for c in calls) - (op['basis'] == 'trig')):
            return           # a number is a constant, three columns throughout are three columns
        rec.count('check:accuracy')
        if not np.all(np.isfinite(S.c)):
            return V('resolved', 'marked resolved, but its coefficients are not finite')
        z = PROBE
        with np.errstate(all='ignore'):
            t = self.truth(op, z)
            y = S.ev(z)
        if S.kind == 'trig':
            t = t + 0j
        scale = np.max(np.abs(np.where(np.isfinite(t), t, 0)), axis=0) + (op['amp'] if op['how'] == 'op' else 1) * 1e-3
        err = np.abs(t - y)
        lim = self.tol(op) * np.max(scale)
        bad = ~(err <= lim)
        if os.environ.get('SIM_CAL'):
            rec.count('cal:%s:%d' % (op['basis'], int(math.log10(max(np.max(err) / lim, 1e-9)))))
        if bad.any():
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err).max(axis=1)))
            return V('accuracy', 'marked resolved, but off by %.3g at z=%.3f (scale %.3g, %d samples%s)' % (
                np.max(err), z[i], np.max(scale), S.n, '; the callback returned garbage (%s)' % '/'.join(fired) if fired else ''))

    def resolvable(self, op):
        return all(f not in ROUGH for f in op['fams'])

    def must(self, op):
        return self.resolvable(op) and 'maxLength' not in op['kw']

    def strict(self, op):
        return self.resolvable(op) or 'eps' not in op['kw']

    def tol(self, op):
        if op['basis'] == 'cheb':
            e = max(op['kw'].get('eps', 0), 2.3e-16) * max(1.0, abs(op['dom'][0]), abs(op['dom'][1]))
        else:
            return max(1e-11, 10 * op['kw'].get('eps', 1e-10))
        return max(1e-11, 3e3 * e)
