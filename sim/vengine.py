"""P13: histories of arithmetic on solution states - componentwise reference model, independence, injected exceptions."""
import copy
import math
import operator
import warnings

import numpy as np

from .core import Engine
from .fengine import EXC
from .fworld import DOMS, series
from .hooks import monitor, StepLimit
from .model import Snap, PROBE, gauss
from .states import isfun, PNAMES, num

LIMIT = 2000000
NSNAMES = ['eta', 'kappa', 'omega']

BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul)
IBIN = dict(iadd=operator.iadd, isub=operator.isub, imul=operator.imul)
SCAL = dict(muls=lambda s, c: s * c, rmuls=lambda s, c: c * s, divs=lambda s, c: s / c, adds=lambda s, c: s + c,
            rsubs=lambda s, c: c - s)
ISCAL = dict(imuls=operator.imul, idivs=operator.itruediv, iadds=operator.iadd, isubs=operator.isub)
FN = dict(SCAL, imuls=lambda s, c: s * c, idivs=lambda s, c: s / c, iadds=lambda s, c: s + c, isubs=lambda s, c: s - c)
UN = dict(neg=operator.neg, pos=operator.pos, deepcopy=copy.deepcopy, zeros=np.zeros_like, ones=np.ones_like, real=np.real,
          imag=np.imag, conj=np.conj)
UNREF = dict(neg=lambda x: -x, pos=lambda x: x, deepcopy=lambda x: x, zeros=lambda x: 0 * x, ones=lambda x: 0 * x + 1.0,
             real=np.real, imag=np.imag, conj=np.conj)
INPL = ['iadd', 'isub', 'imul', 'imuls', 'idivs', 'iadds', 'isubs', 'normalize', 'flip', 'prolong', 'simplify', 'outarg']
READ = ['norm', 'inner', 'dot', 'innerw', 'mass', 'array', 'text', 'items', 'props', 'happy', 'column', 'par', 'sum', 'plot', 'access']
PLAIN = list(BIN) + list(SCAL) + list(UN) + ['from_state', 'from_fun', 'from_coeffs', 'mpwrap']
SCALARS = [2.0, -1.5, 0.25, 3, -1, 1e-3, 40.0, 0.0, 1]


def attrs(f):
    t = f.onefun
    return tuple((k, repr(getattr(t, k, None))) for k in ('eps', 'hscale', 'maxLength'))


class SP:
    """numerical picture of a state: what it consists of"""
    def __init__(self, s):
        if hasattr(type(s), 'tangent'):
            self.mp = (SP(s.u), SP(s.v))
            return
        self.mp = None
        self.kind = type(s).__name__
        self.weights = np.array([float(w) for w in np.asarray(s.weights, float).ravel()])
        self.funcs = [Snap(f) for f in s.funcs]
        self.ev = [S.ev(PROBE) for S in self.funcs]
        self.reals = [(r.name, num(r.value)) for r in s.reals]
        self.ns = {k: num(v) for k, v in s.ns.items()}
        self.bits = [attrs(f) for f in s.funcs]

    def key(self):
        if self.mp:
            return ('mp', self.mp[0].key(), self.mp[1].key())
        return (self.kind, tuple(self.weights), tuple(S.key() for S in self.funcs), tuple(self.reals), tuple(sorted(self.ns.items())))

    def scale(self):
        if self.mp:
            return max(self.mp[0].scale(), self.mp[1].scale())
        return max([float(np.max(np.abs(e))) for e in self.ev] + [abs(v) for _, v in self.reals] + [0.0])

    def size(self):
        return max(self.mp[0].size(), self.mp[1].size()) if self.mp else max(S.n for S in self.funcs)

    def diff(self, o):
        if bool(self.mp) != bool(o.mp):
            return 'kind changed'
        if self.mp:
            d = [self.mp[i].diff(o.mp[i]) for i in (0, 1)]
            return 'state: %s' % d[0] if d[0] else 'tangent: %s' % d[1] if d[1] else None
        if self.kind != o.kind:
            return 'kind %s -> %s' % (self.kind, o.kind)
        if self.weights.tobytes() != o.weights.tobytes():
            return 'weights %s -> %s' % (self.weights, o.weights)
        if self.reals != o.reals:
            return 'parameters %s -> %s' % (self.reals, o.reals)
        if self.ns != o.ns:
            return 'namespace %s -> %s' % (self.ns, o.ns)
        if len(self.funcs) != len(o.funcs):
            return 'number of functions'
        for i, (a, b) in enumerate(zip(self.funcs, o.funcs)):
            if not a.same(b):
                return 'function %d: %s' % (i, a.diff_text(b))
            if self.bits[i] != o.bits[i]:
                return 'function %d: tolerance or length limit changed' % i
        return None

    def copied(self, o):
        if self.mp:
            return self.mp[0].copied(o.mp[0]) or self.mp[1].copied(o.mp[1])
        if (self.kind, self.weights.tobytes(), self.reals, self.ns) != (o.kind, o.weights.tobytes(), o.reals, o.ns):
            return 'kind, weights, parameters or namespace'
        if len(self.funcs) != len(o.funcs) or any(a.c.shape != b.c.shape or a.c.tobytes() != b.c.tobytes() for a, b in zip(self.funcs, o.funcs)):
            return 'a function'
        return None if self.bits == o.bits else 'tolerance or length limit of a function'

    def norm2(self):
        t = 0.0
        for i, S in enumerate(self.funcs):
            t += self.weights[i] * float(np.real(np.trace(gram(S, S))))
        for i, (_, v) in enumerate(self.reals, start=len(self.funcs)):
            t += self.weights[i] * v.real ** 2
        return t


def gram(A, B):
    """matrix of inner products of the columns"""
    if A.kind == 'trig':
        n = 2 * (A.n + B.n) + 9
        z, w = -1 + 2.0 * np.arange(n) / n, np.full(n, 2.0 / n)
    else:
        z, w = gauss((A.n + B.n) // 2 + 2)
    a, b = A.ev(z), B.ev(z)
    return ((a.T * w) @ np.conj(b)) * (A.dom[1] - A.dom[0]) / 2


def gramw(A, B):
    if A.kind == 'trig':
        return np.trace(gram(A, B))
    n = min(A.n, B.n)
    return float(((A.c[:n] * B.c[:n]).sum(axis=0) + A.c[0] * B.c[0]).sum()) * np.pi / 2 * (A.dom[1] - A.dom[0]) / 2


class StateEngine(Engine):
    preload = ['funpy.vectorspaces']
    measure = 'distinct (operation, state kind, representation, columns, lengths, aliasing, outcome) situations'
    rule = ('one run is one seeded history of 15-45 operations over live states of all kinds, their donors (functions and parameters '
            'they were built from) and columns taken from them; distinct = distinct digests of operations, operands and outcomes')
    real = ['funpy.vectorspaces', 'funpy.fun', 'funpy.cheb', 'funpy.trig', 'numpy']
    stub = []
    assumptions = ['states combined are of one kind, on one interval, in one representation, with the same columns and parameter names',
                   'real scalars and parameters']
    quick_runs = 9000
    thorough_runs = 100000
    quick_wall = 60
    must_hit = ['op:' + k for k in list(BIN) + list(SCAL) + list(UN) + INPL + READ + ['from_state', 'from_coeffs', 'mpwrap', 'poke', 'new']] + [
        'fault:tick', 'probe:interrupted-inplace', 'probe:aliased', 'probe:different-lengths', 'probe:inplace-plain-compared']

    def __init__(self, prop):
        self.prop = prop

    # -------------------------------------------------------------------------------------------- generation
    def gen_new(self, rng, cfg):
        return dict(op='new', kind=rng.choice(cfg['kinds']), n=rng.choice([1, 2, 3, 5, 9, 14, 30]), n2=rng.choice([1, 3, 7, 20]), s=rng.randrange(1 << 30),
                    scale=rng.choice([1, 1, 1, 30.0, 1e-3]), cplx=rng.random() < 0.15, weights=rng.random() < 0.4,
                    vals=[round(rng.uniform(-3, 3), 3) for _ in range(2)], ns=rng.randrange(8), wrap=rng.random() < 0.15, even=rng.random() < 0.15)

    def gen(self, rng, idx, tier):
        kind = rng.choice(['cheb', 'trig'])
        cfg = dict(basis=kind, dom=list(rng.choice([list(d) for d in DOMS])), m=rng.choice([1, 1, 2]), names=rng.sample(PNAMES[1:], 2),
                   kinds=rng.choice([['cont'], ['defl'], ['tpc'], ['tp'], ['cont', 'tp'], ['defl', 'cont', 'tpc']]))
        w = {}
        for grp, ww in ((list(BIN), 2), (list(SCAL), 1), (list(UN), 1), (INPL, 1.5), (READ, .5), (['from_state', 'from_fun', 'from_coeffs', 'mpwrap'], .7),
                        (['poke'], 8), (['new'], 2), (['alias'], 1), (['drop'], .7)):
            for k in grp:
                w[k] = ww
        if rng.random() < .5:
            w = {k: v for k, v in w.items() if k in ('new', 'poke') or rng.random() < .5}
        ops = [self.gen_new(rng, cfg) for _ in range(rng.choice([2, 3]))]
        ks, ws = list(w), list(w.values())
        rate = rng.choice([0, .1, .35])
        for _ in range(rng.choice([12, 20, 30]) * (2 if tier == 'thorough' and rng.random() < .3 else 1)):
            k = rng.choices(ks, ws)[0]
            if k == 'new':
                ops.append(self.gen_new(rng, cfg))
                continue
            op = dict(op=k, i=rng.randrange(64), j=rng.randrange(64), k=rng.randrange(64), c=rng.choice(SCALARS), self=rng.random() < .15,
                      f=round(rng.random(), 3))
            if k not in ('alias', 'drop', 'poke') and rng.random() < rate:
                op['fault'] = dict(exc=rng.choice(list(EXC)), at=int(math.exp(rng.uniform(0, math.log(400)))))
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    # -------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(7)
        import funpy.vectorspaces as vs
        from funpy.fun import Fun
        self.vs, self.Fun, self.cfg, self.rec, self.mon = vs, Fun, plan['cfg'], rec, monitor()
        self.slots, self.donors = [], []          # states; functions and parameters that must stay put
        for op in plan['ops']:
            rec.simtime += 1
            if op['op'] != 'new' and not self.slots:
                continue
            self.do(op)
            if rec.violations:
                return

    # ---- pictures of everything
    def everything(self):
        out, seen = [], set()
        for o in self.slots:
            if id(o) not in seen:
                seen.add(id(o))
                out.append((o, SP(o)))
        for o in self.donors:
            if id(o) not in seen:
                seen.add(id(o))
                out.append((o, self.dpic(o)))
        return out

    def dpic(self, o):
        if isfun(o):
            return (Snap(o).key(), attrs(o))
        if isinstance(o, np.ndarray):
            return (o.dtype.str, o.shape, o.tobytes())
        if isinstance(o, dict):
            return tuple(sorted((k, num(v)) for k, v in o.items()))
        return (o.name, num(o.value))

    def unchanged(self, before, k, but=(), oracle='independence', what=''):
        for o, pic in before:
            if any(o is b for b in but):
                continue
            self.rec.count('check:unchanged')
            try:
                now = SP(o) if isinstance(pic, SP) else self.dpic(o)
            except Exception as e:
                self.rec.violate(oracle, k, 'an object became unusable: %r %s' % (e, what))
                return False
            if isinstance(pic, SP):
                d = pic.diff(now)
            else:
                d = None if now == pic else '%s it was built from or handed out as' % ('the function' if isfun(o) else 'the %s' % type(o).__name__)
            if d:
                self.rec.violate(oracle, k, 'another object changed: %s %s' % (d, what))
                return False
        return True

    def pick(self, i, pred=None):
        c = [s for s in self.slots if pred is None or pred(s)]
        return c[i % len(c)] if c else None

    def ismp(self, s):
        return hasattr(type(s), 'tangent')

    def like(self, s):
        def names(t):
            t = t.u if self.ismp(t) else t
            return (type(t).__name__, tuple(r.name for r in t.reals))
        return lambda t: self.ismp(t) == self.ismp(s) and names(t) == names(s)

    def put(self, s):
        if len(self.slots) >= 8:
            self.slots.pop(0)
        self.slots.append(s)

    # ---- componentwise comparison
    def compare(self, k, got, want_ev, want_reals, like, tol, weights=None, ns=None):
        """got: state; want_ev: list of arrays at PROBE; want_reals: list of numbers; names, weights and ns like `like` (an SP)"""
        rec = self.rec
        rec.count('check:componentwise')
        try:
            P = SP(got)
        except Exception as e:
            return 'the result is unusable: %r' % (e,)
        if P.mp or P.kind != like.kind:
            return 'the result is a %s' % type(got).__name__
        if [n for n, _ in P.reals] != [n for n, _ in like.reals]:
            return 'parameter names %s, expected %s' % ([n for n, _ in P.reals], [n for n, _ in like.reals])
        for (n, v), w in zip(P.reals, want_reals):
            if not abs(v - w) <= 1e-13 * (1e-300 + abs(w)) + 1e-14 * tol / 1e-8:
                return 'parameter %s = %r, expected %r' % (n, v, w)
        if len(P.funcs) != len(want_ev):
            return '%d functions' % len(P.funcs)
        for i, (e, w) in enumerate(zip(P.ev, want_ev)):
            if e.shape != w.shape:
                return 'function %d has %d columns' % (i, e.shape[1])
            d = float(np.max(np.abs(e - w)))
            big = float(np.max(np.abs(w)))
            # nearly constant: how much of the rest survives is up to the plateau rule of the chopping (tolerance 1e-10)
            loose = 1e-6 * big if np.max(np.abs(w - w.mean(axis=0))) < 1e-3 * big else 0.0
            if not d <= max(tol, loose):
                return 'function %d off by %.3g (tolerance %.1g)' % (i, d, tol)
        ww = like.weights if weights is None else weights
        if P.weights.tobytes() != ww.tobytes():
            return 'weights %s, expected %s' % (P.weights, ww)
        nn = like.ns if ns is None else ns
        if P.ns != nn:
            return 'namespace %s, expected %s' % (P.ns, nn)
        return None

    def check(self, k, res, ref, ops, tol):
        """componentwise check of a result computed as ref(components of ops)"""
        A = ops[0]
        if A.mp:
            if not self.ismp(res):
                return 'the result is a %s' % type(res).__name__
            d = self.comp(k, res.u, ref, [o.mp[0] if isinstance(o, SP) else o for o in ops], tol)
            if d:
                return 'state: ' + d
            return self.comp(k, res.v, ref, [o.mp[1] if isinstance(o, SP) else o for o in ops], tol, norm=True)
        return self.comp(k, res, ref, ops, tol)

    def comp(self, k, res, ref, ops, tol, norm=False):
        A = ops[0]
        ev = [ref(*[o.ev[i] if isinstance(o, SP) else o for o in ops]) for i in range(len(A.ev))]
        rl = [complex(ref(*[o.reals[i][1] if isinstance(o, SP) else o for o in ops])) for i in range(len(A.reals))]
        if norm and k not in UN or norm and k in ('neg', 'pos', 'conj'):
            # the tangent is normalised; its length comes from the result itself through linearity: compare directions
            try:
                P = SP(res)
            except Exception as e:
                return 'tangent unusable: %r' % (e,)
            n = self.refnorm(ops, ref)
            if n is None or n < 1e-6:
                self.rec.count('probe:tangent-unscaled')
                return None
            ev, rl = [e / n for e in ev], [r / n for r in rl]
            tol = tol / n * 10
        return self.compare(k, res, ev, rl, A, tol)

    def refnorm(self, ops, ref):
        """norm of ref(components), by quadrature"""
        A = ops[0]
        t = 0.0
        for i, S in enumerate(A.funcs):
            nn = 2 * sum(o.funcs[i].n for o in ops if isinstance(o, SP)) + 11
            if S.kind == 'trig':
                nn *= 2
                z, w = -1 + 2.0 * np.arange(nn) / nn, np.full(nn, 2.0 / nn)
            else:
                z, w = gauss(nn)
            y = ref(*[o.funcs[i].ev(z) if isinstance(o, SP) else o for o in ops])
            y = y + 0 * S.ev(z)
            t += A.weights[i] * float(np.sum(w[:, None] * np.abs(y) ** 2)) * (S.dom[1] - S.dom[0]) / 2
        for i in range(len(A.reals)):
            v = ref(*[o.reals[i][1] if isinstance(o, SP) else o for o in ops])
            t += A.weights[i + len(A.funcs)] * complex(v).real ** 2
        return math.sqrt(t) if t >= 0 else None

    # ---- operations
    def do(self, op):
        k = op['op']
        f = getattr(self, 'x_' + k, None)
        if f is not None:
            return f(op)
        if k in BIN or k in IBIN:
            return self.binary(op)
        if k in SCAL or k in ISCAL:
            return self.scalar(op)
        if k in UN:
            return self.unary(op)
        raise ValueError(k)

    def call(self, op, thunk, before, reads=(), target=None, allow=()):
        """runs the operation; returns (state, value).  state: 'ok', 'fault' (interrupted; already judged), 'error'"""
        k, rec = op['op'], self.rec
        ft = op.get('fault')
        rec.count('op:' + k)
        self.mon.start(limit=LIMIT, at=ft['at'] if ft else None, exc=EXC[ft['exc']]('injected') if ft else None)
        try:
            r = thunk()
        except StepLimit:
            self.mon.stop()
            rec.violate('no-progress', k, 'step budget exceeded')
            return 'error', None
        except BaseException as e:
            self.mon.stop()
            if ft and self.mon.fired is not None:
                rec.count('fault:tick')
                if target is not None:
                    rec.count('probe:interrupted-inplace')
                rec.event(k, 'interrupted', self.mon.fired[0])
                rec.state((k, 'interrupted', self.mon.fired))
                self.unchanged(before, k, but=() if target is None else (target,), oracle='interrupted')
                return 'fault', None
            if isinstance(e, allow):
                rec.event(k, 'refused')
                self.unchanged(before, k)
                return 'error', None
            rec.violate('error', k, '%s: %s' % (type(e).__name__, e))
            return 'error', None
        finally:
            self.mon.stop()
        if ft and self.mon.fired is not None:
            rec.count('fault:swallowed')
        return 'ok', r

    def fn(self, n, op, z=0):
        kind, m = self.cfg['basis'], self.cfg['m']
        c = series(n, m, (op['s'] + z) % (1 << 30), kind, bool(op.get('cplx')) and kind == 'trig', .6, False, op['scale'], bool(op.get('even')))
        return self.Fun(coeffs=c, domain=list(self.cfg['dom']), type=kind, simplify=False)

    def x_new(self, op):
        vs, rec = self.vs, self.rec
        cfg = self.cfg
        u, phi = self.fn(op['n'], op), self.fn(op['n2'], op, 1)
        names = cfg['names']
        P = [vs.Parameter(**{names[i]: op['vals'][i]}) for i in range(2)]
        ns = {NSNAMES[i]: round(.5 + i + op['vals'][0], 3) for i in range(3) if op['ns'] >> i & 1}
        W = {}
        nw = dict(cont=2, defl=1, tpc=3, tp=4)[op['kind']]
        if op['weights']:
            w = np.array([1.0, .5, 2.0, .25][:nw])
            W = dict(weights=w)
        donors = [u, phi] + P + ([W['weights']] if W else [])
        before = self.everything()
        kd = op['kind']

        def thunk():
            if kd == 'cont':
                return vs.ContinuationState(a=P[0], u=u, **ns, **W)
            if kd == 'defl':
                return vs.DeflationState(u=u, **ns, **W)
            if kd == 'tpc':
                return vs.TwoParContState(p1=P[0], p2=P[1], u=u, **ns, **W)
            return vs.TwoParameterState(p1=P[0], p2=P[1], u=u, phi=phi, **ns, **W)
        dpics = [(d, self.dpic(d)) for d in donors]
        st, s = self.call(op, thunk, before)
        if st != 'ok':
            return
        if not self.unchanged(before + dpics, 'new'):
            return
        S = SP(s)
        want = [Snap(u).ev(PROBE)] + ([Snap(phi).ev(PROBE)] if kd == 'tp' else [])
        nr = dict(cont=1, defl=0, tpc=2, tp=2)[kd]
        for e, w in zip(S.ev, want):
            if e.shape != w.shape or not np.max(np.abs(e - w)) <= 1e-9 * (1e-3 + np.max(np.abs(w))):
                return rec.violate('value', 'new', 'the state does not consist of the function it was built from')
        if S.reals != [(names[i], complex(op['vals'][i])) for i in range(nr)]:
            return rec.violate('value', 'new', 'parameters %s' % (S.reals,))
        if S.ns != {a: complex(b) for a, b in ns.items()}:
            return rec.violate('value', 'new', 'namespace %s, given %s' % (S.ns, ns))
        if W and S.weights.tobytes() != W['weights'].tobytes():
            return rec.violate('value', 'new', 'weights %s' % (S.weights,))
        # the weights array itself may be kept: do not write to it later
        self.donors += [u, phi] + P[:nr] if kd == 'tp' else [u] + P[:nr]
        self.donors = self.donors[-14:]
        if op['wrap']:
            s = vs.MoorePenroseState(u=s, v=copy.deepcopy(s))
        self.put(s)
        rec.event('new', kd, S.key())
        rec.state(('new', kd, cfg['basis'], cfg['m'], op['n'] > 9, op['wrap']))

    def x_alias(self, op):
        self.put(self.pick(op['i']))

    def x_drop(self, op):
        if len(self.slots) > 2:
            self.slots.pop(op['i'] % len(self.slots))

    def guard(self, *S):
        return all(s.size() <= 150 and s.scale() <= 1e5 for s in S)

    def tol(self, *S):
        return 1e-8 * max(s.scale() for s in S) + 1e-11

    def settle(self, op, k, res, d, before, target, *sits):
        """after a completed operation"""
        rec = self.rec
        if d:
            rec.violate('value', k, d)
            return
        if not self.unchanged(before, k, but=() if target is None else (target,)):
            return
        rec.event(k, SP(res).key() if not isinstance(res, (float, complex, tuple)) else res)
        rec.state((k, self.cfg['basis'], self.cfg['m']) + sits)

    def binary(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'])
        b = a if op['self'] else self.pick(op['j'], self.like(a))
        A, B = SP(a), SP(b)
        name = k[1:] if k in IBIN else k
        if not self.guard(A, B) or (name == 'mul' and (A.scale() * B.scale() > 1e4 or A.size() + B.size() > 100 or A.mp)):
            return
        if a is b:
            rec.count('probe:aliased')
        if A.size() != B.size():
            rec.count('probe:different-lengths')
        ref = BIN[name]
        tol = self.tol(A, B) if name != 'mul' else 1e-8 * A.scale() * B.scale() + 1e-11
        before = self.everything()
        if k in IBIN:
            plain = None
            if op['f'] < .4:
                aa = copy.deepcopy(a)
                bb = aa if a is b else copy.deepcopy(b)
                try:
                    plain = SP(ref(aa, bb))
                except Exception:
                    plain = None
            st, r = self.call(op, lambda: IBIN[k](a, b), before, target=a)
            if st == 'fault':
                return self.halfway(k, a, A, lambda: ref, [A, B], tol)
            if st != 'ok':
                return
            if r is not a:
                return rec.violate('identity', k, 'the in-place form returned another object')
            d = self.check(k, a, ref, [A, B], tol)
            if not d and plain is not None:
                d = self.same(SP(a), plain, tol * 10 if not A.mp else None)
            self.settle(op, k, a, d, before, a, A.kind if not A.mp else 'mp', a is b, A.size() < B.size(), A.size() > B.size(), 'in')
            return
        st, r = self.call(op, lambda: BIN[k](a, b), before)
        if st == 'fault' and not rec.violations:
            st, r = self.call(dict(op, fault=None), lambda: BIN[k](a, b), before)
        if st != 'ok':
            return
        d = self.check(k, r, ref, [A, B], tol)
        self.settle(op, k, r, d, before, None, A.kind if not A.mp else 'mp', a is b, A.size() < B.size(), A.size() > B.size())
        if not d:
            self.put(r)

    def same(self, P, Q, tol):
        self.rec.count('probe:inplace-plain-compared')
        if P.mp:
            return None
        for (n, v), (n2, w) in zip(P.reals, Q.reals):
            if n != n2 or abs(v - w) > 1e-12 * (1 + abs(w)):
                return 'in-place form gives parameter %s=%r, plain form %s=%r' % (n, v, n2, w)
        for e, g in zip(P.ev, Q.ev):
            if e.shape != g.shape or not np.max(np.abs(e - g)) <= tol:
                return 'in-place and plain form give different functions'
        return None

    def halfway(self, k, a, A, getref, ops, tol):
        """an interrupted in-place operation: every component is the old one or the new one"""
        rec = self.rec
        if rec.violations or A.mp:
            return
        ref = getref()
        rec.count('check:halfway')
        try:
            P = SP(a)
        except Exception as e:
            return rec.violate('interrupted', k, 'the state became unusable: %r' % (e,))
        if [n for n, _ in P.reals] != [n for n, _ in A.reals] or P.weights.tobytes() != A.weights.tobytes() or P.ns != A.ns:
            return rec.violate('interrupted', k, 'names, weights or namespace changed')
        for i, (n, v) in enumerate(P.reals):
            w = complex(ref(*[o.reals[i][1] if isinstance(o, SP) else o for o in ops]))
            if v != A.reals[i][1] and abs(v - w) > 1e-12 * (1 + abs(w)):
                return rec.violate('interrupted', k, 'parameter %s = %r is neither the old nor the new value' % (n, v))
        for i, e in enumerate(P.ev):
            w = ref(*[o.ev[i] if isinstance(o, SP) else o for o in ops])
            if e.shape != w.shape or (not np.max(np.abs(e - A.ev[i])) <= 1e-9 * (A.scale() + 1e-3) and not np.max(np.abs(e - w)) <= tol):
                return rec.violate('interrupted', k, 'function %d is neither the old nor the new one' % i)

    def scalar(self, op):
        k, rec, c = op['op'], self.rec, op['c']
        a = self.pick(op['i'])
        A = SP(a)
        if not self.guard(A) or ('div' in k and c == 0) or (k == 'divs' and c == 1e-6) or (k == 'idivs' and c == 1e-6):
            return
        if A.mp and (c == 0 or 'add' in k or 'sub' in k):
            return
        if op['f'] < .25:
            c = np.float64(c)
        ref = FN[k]
        tol = 1e-8 * (A.scale() + abs(c)) * max(1.0, abs(c) if 'mul' in k else 1 / abs(c) if 'div' in k else 1) + 1e-11
        before = self.everything()
        if k in ISCAL:
            st, r = self.call(op, lambda: ISCAL[k](a, c), before, target=a)
            if st == 'fault':
                return self.halfway(k, a, A, lambda: ref, [A, c], tol)
            if st != 'ok':
                return
            if r is not a:
                return rec.violate('identity', k, 'the in-place form returned another object')
            d = self.check(k, a, ref, [A, c], tol)
            return self.settle(op, k, a, d, before, a, A.kind if not A.mp else 'mp', c == 0, 'in')
        f = SCAL[k]
        st, r = self.call(op, lambda: f(a, c), before)
        if st == 'fault' and not rec.violations:
            st, r = self.call(dict(op, fault=None), lambda: f(a, c), before)
        if st != 'ok':
            return
        d = self.check(k, r, ref, [A, c], tol)
        self.settle(op, k, r, d, before, None, A.kind if not A.mp else 'mp', c == 0)
        if not d:
            self.put(r)

    def unary(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'])
        A = SP(a)
        before = self.everything()
        f = UN[k]
        st, r = self.call(op, lambda: f(a), before)
        if st == 'fault' and not rec.violations:
            st, r = self.call(dict(op, fault=None), lambda: f(a), before)
        if st != 'ok':
            return
        d = 'the operand itself was returned' if r is a else self.check(k, r, UNREF[k], [A], self.tol(A) if k != 'deepcopy' else 1e-13 * A.scale() + 1e-300)
        if k == 'deepcopy' and not d:
            d = A.copied(SP(r))
            d = d and 'a copy differs: ' + d
        self.settle(op, k, r, d, before, None, A.kind if not A.mp else 'mp')
        if not d:
            self.put(r)

    def x_outarg(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'])
        b = self.pick(op['j'], self.like(a))
        w = self.pick(op['k'], self.like(a))
        A, B, Wp = SP(a), SP(b), SP(w)
        if A.mp or not self.guard(A, B, Wp):
            return
        fn = np.add if op['f'] < .5 else np.subtract
        before = self.everything()
        st, r = self.call(op, lambda: fn(a, b, out=w), before, target=w)
        if st != 'ok':
            return
        if r is not w:
            return rec.violate('identity', k, 'out= was not returned')
        ref = BIN['add'] if op['f'] < .5 else BIN['sub']
        ev = [ref(x, y) for x, y in zip(A.ev, B.ev)]
        rl = [ref(x[1], y[1]) for x, y in zip(A.reals, B.reals)]
        d = self.compare(k, w, ev, rl, Wp, self.tol(A, B))
        self.settle(op, k, w, d, before, w, A.kind, w is a, w is b)

    def x_normalize(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        A = SP(a)
        n = math.sqrt(max(A.norm2(), 0))
        if not self.guard(A) or n < 1e-5:
            return
        before = self.everything()
        st, r = self.call(op, lambda: a.normalize(), before, target=a)
        ref = lambda x: x / n
        if st == 'fault':
            return self.halfway(k, a, A, lambda: ref, [A], 1e-7 * max(1, A.scale() / n))
        if st != 'ok':
            return
        d = self.norms(k, a, A, n)
        self.settle(op, k, a, d, before, a, A.kind)

    def norms(self, k, a, A, n):
        P = SP(a)
        if [x for x, _ in P.reals] != [x for x, _ in A.reals] or P.ns != A.ns or P.weights.tobytes() != A.weights.tobytes():
            return 'names, namespace or weights changed'
        for (x, v), (_, w) in zip(P.reals, A.reals):
            if abs(v - w / n) > 1e-6 * (1e-3 + abs(w / n)):
                return 'parameter %s = %r, expected %r' % (x, v, w / n)
        for e, w in zip(P.ev, A.ev):
            if not np.max(np.abs(e - w / n)) <= 1e-6 * (1e-3 + A.scale() / n):
                return 'a function is not scaled to unit norm'
        return None

    def x_flip(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        A = SP(a)
        before = self.everything()
        st, r = self.call(op, lambda: a.flip(), before, target=a)
        if st == 'fault':
            return self.halfway(k, a, A, lambda: operator.neg, [A], self.tol(A))
        if st == 'ok':
            self.settle(op, k, a, self.check(k, a, operator.neg, [A], self.tol(A)), before, a, A.kind)

    def x_prolong(self, op):
        k, rec = op['op'], self.rec
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        A = SP(a)
        n = A.size() + [0, 1, 4, 10, 25][op['k'] % 5]
        if n > 120:
            return
        n |= self.cfg['basis'] == 'trig'
        before = self.everything()
        st, r = self.call(op, lambda: a.prolong(n), before, target=a)
        ident = lambda x: x
        if st == 'fault':
            return self.halfway(k, a, A, lambda: ident, [A], self.tol(A))
        if st == 'ok':
            d = self.check(k, a, ident, [A], self.tol(A)) or ('returned another object' if r is not a else None)
            if not d and any(S.n != n for S in SP(a).funcs):
                d = 'lengths %s, asked for %d' % ([S.n for S in SP(a).funcs], n)
            self.settle(op, k, a, d, before, a, A.kind, n > 9)

    def x_simplify(self, op):
        k = op['op']
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        A = SP(a)
        before = self.everything()
        st, r = self.call(op, lambda: a.simplify(), before, target=a)
        ident = lambda x: x
        tol = 1e-7 * A.scale() + 1e-11
        if st == 'fault':
            return self.halfway(k, a, A, lambda: ident, [A], tol)
        if st == 'ok':
            self.settle(op, k, a, self.check(k, a, ident, [A], tol), before, a, A.kind)

    # ---- numbers
    def number(self, op, a, before, thunk, want, tol, *sits):
        k, rec = op['op'], self.rec
        st, r = self.call(op, thunk, before)
        if st == 'fault' and not rec.violations:
            st, r = self.call(dict(op, fault=None), thunk, before)
        if st != 'ok':
            return
        rec.count('check:number')
        try:
            v = np.asarray(r, complex).reshape(-1)
            v = complex(v[0]) if v.size == 1 else None
        except Exception:
            v = None
        d = None if v is not None and abs(v - want) <= tol else '%r, expected %r' % (r, want)
        self.settle(op, k, (repr(v),), d, before, None, *sits)

    def x_norm(self, op):
        a = self.pick(op['i'])
        A = SP(a)
        if not self.guard(A):
            return
        U = A.mp[0] if A.mp else A
        want = U.norm2()
        if want < 0:
            return
        before = self.everything()
        self.number(op, a, before, lambda: a.norm(), math.sqrt(want), 1e-6 * math.sqrt(want) + 1e-4 * U.scale() * (want < 1e-8 * U.scale() ** 2) + 1e-9, U.kind, bool(A.mp))

    def pairnum(self, op, f, g, h, mpok=True):
        a = self.pick(op['i'])
        b = a if op['self'] else self.pick(op['j'], self.like(a))
        A, B = SP(a), SP(b)
        if not self.guard(A, B) or (A.mp and not mpok):
            return
        U, V = (A.mp[0], B.mp[0]) if A.mp else (A, B)
        want = sum(U.weights[i] * g(x, y) for i, (x, y) in enumerate(zip(U.funcs, V.funcs)))
        nf = len(U.funcs)
        want += sum(U.weights[nf + i] * x[1] * y[1] for i, (x, y) in enumerate(zip(U.reals, V.reals)))
        L = self.cfg['dom'][1] - self.cfg['dom'][0]
        before = self.everything()
        self.number(op, a, before, lambda: f(a, b), want, 1e-8 * (1 + L) * h * (U.scale() * V.scale() + 1e-3), U.kind, a is b, bool(A.mp))

    def x_inner(self, op):
        self.pairnum(op, np.inner, lambda x, y: np.trace(gram(x, y)), 40)

    def x_dot(self, op):
        self.pairnum(op, np.dot, lambda x, y: np.trace(gram(x, y)), 40)

    def x_innerw(self, op):
        self.pairnum(op, self.vs.innerw, gramw, 400, mpok=False)

    def x_mass(self, op):
        a = self.pick(op['i'])
        A = SP(a)
        U = A.mp[0] if A.mp else A
        L = self.cfg['dom'][1] - self.cfg['dom'][0]
        want = [complex(np.sum(S.total()) * L / 2) for S in U.funcs]
        before = self.everything()
        st, r = self.call(dict(op, fault=None), lambda: a.mass(), before)
        if st == 'ok':
            d = None if len(r) == len(want) and all(abs(complex(x) - y) <= 1e-8 * L * (U.scale() + 1e-3) for x, y in zip(r, want)) else '%r, expected %r' % (r, want)
            self.settle(op, 'mass', (repr(r),), d, before, None, U.kind)

    def x_sum(self, op):
        a = self.pick(op['i'])
        U = SP(a)
        U = U.mp[0] if U.mp else U
        L = self.cfg['dom'][1] - self.cfg['dom'][0]
        want = np.atleast_1d(U.funcs[0].total()) * L / 2
        before = self.everything()
        st, r = self.call(op, lambda: np.sum(a), before)
        if st == 'ok':
            r = np.asarray(r).reshape(-1)
            d = None if r.shape == want.shape and np.max(np.abs(r - want)) <= 1e-8 * L * (U.scale() + 1e-3) else '%r, expected %r' % (r, want)
            self.settle(op, 'sum', (repr(r),), d, before, None, U.kind)

    def x_array(self, op):
        a = self.pick(op['i'])
        U = SP(a)
        U = U.mp[0] if U.mp else U
        before = self.everything()
        meth = 'flatten' if op['f'] < .5 and U.kind != 'DeflationState' else 'asarray'
        fs = U.funcs[:1] if U.kind == 'TwoParameterState' and meth == 'flatten' else U.funcs      # phi is no unknown of its own
        want = np.concatenate([S.c.flatten(order='F') for S in fs] + [np.array([v]) for _, v in U.reals])
        st, r = self.call(op, (lambda: a.flatten()) if meth == 'flatten' else (lambda: np.asarray(a)), before)
        if st == 'ok':
            r = np.asarray(r)
            d = None if r.size == want.size and np.array_equal(np.asarray(r, complex).ravel(), want) else 'not the coefficients and parameters (%d numbers, expected %d)' % (r.size, want.size)
            if not d and r.flags.writeable and r.dtype != object:
                r *= 3.0                                  # the caller's own array now
                r += 1.0
            self.settle(op, 'array', (meth, want.size), d, before, None, U.kind, meth)

    def x_text(self, op):
        a = self.pick(op['i'])
        before = self.everything()
        st, r = self.call(op, (lambda: str(a)) if op['f'] < .5 else (lambda: repr(a)), before, allow=(TypeError,))
        if st == 'ok':
            self.settle(op, 'text', ('text',), None if isinstance(r, str) and r else 'no text', before, None)

    def x_items(self, op):
        a = self.pick(op['i'])
        U = SP(a)
        U = U.mp[0] if U.mp else U
        want = dict(U.ns)
        want.update(U.reals)
        before = self.everything()
        st, r = self.call(op, lambda: {n: num(v) for n, v in a.items()}, before)
        if st == 'ok':
            self.settle(op, 'items', (repr(sorted(r.items())),), None if r == want else '%s, expected %s' % (r, want), before, None)

    def x_props(self, op):
        a = self.pick(op['i'])
        U = SP(a)
        U = U.mp[0] if U.mp else U
        before = self.everything()

        def thunk():
            out = dict(cols=int(a.columns), trig=bool(a.istrig), fs=tuple(a.fshape), names=list(a.keys()))
            [getattr(a, x, None) for x in ('shape', 'size', 'rank', 'is_constant', 'bname', 'pars', 'cpar')]
            return out
        st, r = self.call(op, thunk, before, allow=(TypeError,))
        if st == 'ok':
            want = dict(cols=sum(S.m for S in U.funcs), trig=U.funcs[0].kind == 'trig', fs=(len(U.funcs), len(U.reals)), names=r['names'])
            d = None if r == want and sorted(r['names']) == sorted(U.ns) else '%s, expected %s' % (r, want)
            self.settle(op, 'props', (repr(r),), d, before, None)

    def x_happy(self, op):
        a = self.pick(op['i'])
        before = self.everything()
        st, r = self.call(op, lambda: a.happy(), before)
        if st == 'ok':
            self.settle(op, 'happy', (repr(r),), None, before, None)

    def x_column(self, op):
        a = self.pick(op['i'])
        U = SP(a)
        U = U.mp[0] if U.mp else U
        E = np.concatenate(U.ev, axis=1)
        j = op['j'] % E.shape[1]
        before = self.everything()
        st, r = self.call(op, lambda: a[j], before)
        if st == 'ok':
            S = Snap(r)
            d = None if S.m == 1 and np.max(np.abs(S.ev(PROBE)[:, 0] - E[:, j])) <= 1e-9 * (1e-3 + U.scale()) else 'column %d is not the one of the state' % j
            self.settle(op, 'column', ('col', j), d, before, None)
            if not any(r is f for s in self.slots for f in (s.u.funcs if self.ismp(s) else s.funcs)):
                self.donors.append(r)

    def x_par(self, op):
        """arithmetic of parameters"""
        rec = self.rec
        a = self.pick(op['i'], lambda s: not self.ismp(s) and len(s.reals))
        if a is None:
            return
        b = self.pick(op['j'], self.like(a))
        q = op['k'] % len(a.reals)
        p, r = a.reals[q], b.reals[q]
        v, w, c = num(p.value), num(r.value), op['c'] or 2.0
        what = op['k'] % 14
        fs = [(lambda: p + r, v + w), (lambda: p - r, v - w), (lambda: c * p, c * v), (lambda: p / c, v / c), (lambda: -p, -v),
              (lambda: np.zeros_like(p), 0.0), (lambda: np.ones_like(p), 1.0), (lambda: np.conj(p), v), (lambda: np.real(p), v),
              (lambda: np.sum(p), v), (lambda: p * r, v * w), (lambda: type(p).from_real(p.name, float(p)), v), (lambda: copy.deepcopy(p), v),
              (lambda: type(p)(**{p.name: [int(p), float(np.around(p, 2)), np.dot(p, r), np.inner(p, r)][op['j'] % 4]}),
               [int(v.real), float(np.around(v.real, 2)), v * w, v * w][op['j'] % 4])]
        before = self.everything()
        st, s = self.call(op, fs[what][0], before)
        if st == 'ok':
            want = fs[what][1]
            d = None if type(s) is type(p) and s is not p and s.name == p.name and abs(num(s.value) - want) <= 1e-13 * (1 + abs(want)) else '%r, expected %r' % (s, want)
            self.settle(op, 'par', ('par', what, repr(num(getattr(s, 'value', 0)))), d, before, None, what)
            self.donors.append(s)

    def x_access(self, op):
        """the names and values of the parameters, the two halves of a state with its tangent"""
        a = self.pick(op['i'])
        P = SP(a)
        U = P.mp[0] if P.mp else P
        before = self.everything()

        def thunk():
            out = [(n, num(v)) for n, v in a.update_items()]
            if self.ismp(a):
                out += [a.state is a.u, a.tangent is a.v]
            if U.reals:
                out += [a.cpar, a.par.name, num(a.par.value), num(a.a)]
            if len(U.reals) == 2:
                out += [a.bname, num(a.b)]
            return out
        st, r = self.call(op, thunk, before)
        if st == 'ok':
            want = list(U.reals) + [True, True] * bool(P.mp)
            if U.reals:
                want += [U.reals[-1][0], U.reals[-1][0], U.reals[-1][1], U.reals[-1][1]]
            if len(U.reals) == 2:
                want += [U.reals[0][0], U.reals[0][1]]
            self.settle(op, 'access', (repr(r),), None if r == want else '%s, expected %s' % (r, want), before, None, U.kind, bool(P.mp))

    def x_plot(self, op):
        """the point of a bifurcation diagram: the parameter and a (signed) norm of one column"""
        a = self.pick(op['i'])
        P = SP(a)
        U = P.mp[0] if P.mp else P
        S = U.funcs[0]
        what = ['Sturm', 'SturmNeumann', 'SturmNeumann0', 'Wkp', 'L2'][op['k'] % 5]
        if U.kind == 'DeflationState':
            what = 'Sturm'
        if S.n > 45 or S.n < 2 or S.real is not None and not S.real.all() or not 1e-2 < S.scale() < 1e3:
            return
        q = op['j'] % S.m
        L = S.dom[1] - S.dom[0]
        x, w = gauss(2 * S.n + 20)
        y, dy = np.real(S.ev(x))[:, q], np.real(S.der(1, x))[:, q] * 2 / L
        e, de = float(np.real(S.ev(np.array([-1.0])))[0, q]), float(np.real(S.der(1, np.array([-1.0])))[0, q]) * 2 / L
        if what == 'SturmNeumann0':
            mean = float(w @ y) / 2
            y, e = y - mean, e - mean
        nrm, dn = math.sqrt(float(w @ y ** 2) * L / 2), math.sqrt(float(w @ dy ** 2) * L / 2)
        if dn < 1e-3 * S.scale() or nrm < 1e-2 * S.scale():
            return
        sg = {'Sturm': de, 'SturmNeumann': e, 'SturmNeumann0': e}.get(what, 1.0)
        if abs(sg) < (1e-3 if what != 'Sturm' else 1e-3 * S.n) * S.scale():
            return
        want = math.copysign(1.0, sg) * (math.sqrt(nrm ** 2 + dn ** 2) if what == 'Wkp' else nrm)
        before = self.everything()
        one = U.kind == 'DeflationState'
        st, r = self.call(op, (lambda: (0.0, a.plot_values(cidx=q))) if one else (lambda: a.plot_values(cidx=q, norm_type=what)), before)
        if st == 'ok':
            self.rec.count('check:number')
            pv = 0.0 if one else U.reals[0][1].real
            r = [float(np.real(np.asarray(v).ravel()[0])) for v in r]
            d = None if r[0] == pv and abs(r[1] - want) <= 1e-6 * (abs(want) + S.scale()) else '%s: %r, expected %r' % (what, r, (pv, want))
            self.settle(op, 'plot', (what, q, '%.6g' % want), d, before, None, U.kind, what)

    def x_from_coeffs(self, op):
        vs = self.vs
        a = self.pick(op['i'])
        A = SP(a)
        A = A.mp[0] if A.mp else A
        S = A.funcs[0]
        if S.real is not None and not S.real.all():
            return
        n1, n2 = self.cfg['names']
        what = ['cont', 'defl', 'tpc', 'tp'][op['k'] % 4]
        x, y = float(op['c']), round(op['f'], 2)
        kw = dict(domain=list(self.cfg['dom']), type=self.cfg['basis'])
        vals = dict(cont=[x], defl=[], tpc=[x, y], tp=[x, y])[what]
        arr = np.concatenate([S.c.flatten(order='F'), np.array(vals)])
        thunk = dict(cont=lambda: vs.ContinuationState.from_coeffs(arr, n1, S.m, **kw), defl=lambda: vs.DeflationState.from_coeffs(arr, S.m, **kw),
                     tpc=lambda: vs.TwoParContState.from_coeffs(arr, n1, n2, S.m, **kw), tp=lambda: vs.TwoParameterState.from_coeffs(arr, n1, n2, S.m, **kw))[what]
        before = self.everything()
        self.donors.append(arr)
        before.append((arr, self.dpic(arr)))
        st, r = self.call(op, thunk, before)
        if st == 'fault' and not self.rec.violations:
            st, r = self.call(dict(op, fault=None), thunk, before)
        if st != 'ok':
            return
        P = SP(r)
        mine = [(n, complex(v)) for n, v in zip((n1, n2), vals)]
        d = None if P.reals == mine else 'parameters %s, expected %s' % (P.reals, mine)
        if not d and not (P.ev[0].shape == A.ev[0].shape and np.max(np.abs(P.ev[0] - A.ev[0])) <= self.tol(A)):
            d = 'another function'
        if not d and P.ns:
            d = 'a namespace out of nowhere: %s' % P.ns
        self.settle(op, 'from_coeffs', r, d, before, None, what, A.kind)
        if not d:
            self.put(r)

    # ---- construction from another state
    def x_from_state(self, op):
        rec, vs = self.rec, self.vs
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        A = SP(a)
        items = dict(A.ns)
        items.update(A.reals)
        n1, n2 = self.cfg['names']
        what = ['cont', 'defl', 'tpc', 'tp'][op['k'] % 4]
        x, y = float(op['c']), round(op['f'], 2)
        thunk = dict(cont=lambda: vs.ContinuationState.from_state(a, n1, x), defl=lambda: vs.DeflationState.from_state(a),
                     tpc=lambda: vs.TwoParContState.from_state(a, n1, x, n2, y), tp=lambda: vs.TwoParameterState.from_state(a, n1, x, n2, y))[what]
        mine = dict(cont=[(n1, complex(x))], defl=[], tpc=[(n1, complex(x)), (n2, complex(y))], tp=[(n1, complex(x)), (n2, complex(y))])[what]
        before = self.everything()
        st, r = self.call(op, thunk, before)
        if st == 'fault' and not rec.violations:
            st, r = self.call(dict(op, fault=None), thunk, before)
        if st != 'ok':
            return
        P = SP(r)
        d = None
        want = {n: v for n, v in items.items() if n not in [q for q, _ in mine]}
        if P.reals != mine:
            d = 'parameters %s, expected %s' % (P.reals, mine)
        elif P.ns != want:
            d = 'namespace %s, expected %s' % (P.ns, want)
        elif not np.max(np.abs(P.ev[0] - A.ev[0])) <= self.tol(A):
            d = 'another function'
        elif len(P.ev) > 1 and np.max(np.abs(P.ev[1])) > 0:
            d = 'phi is not zero'
        self.settle(op, 'from_state', r, d, before, None, what, A.kind)
        if not d:
            self.put(r)

    def x_from_fun(self, op):
        rec, vs = self.rec, self.vs
        a = self.pick(op['i'])
        A = SP(a)
        A = A.mp[0] if A.mp else A
        u = a.u.u if self.ismp(a) else a.u
        n1, n2 = self.cfg['names']
        what = ['cont', 'defl', 'tpc', 'tp'][op['k'] % 4]
        x, y = float(op['c']), round(op['f'], 2)
        thunk = dict(cont=lambda: vs.ContinuationState.from_fun(u, n1, x), defl=lambda: vs.DeflationState.from_fun(u),
                     tpc=lambda: vs.TwoParContState.from_fun(u, n1, x, n2, y), tp=lambda: vs.TwoParameterState.from_fun(u, n1, x, n2, y))[what]
        mine = dict(cont=[(n1, complex(x))], defl=[], tpc=[(n1, complex(x)), (n2, complex(y))], tp=[(n1, complex(x)), (n2, complex(y))])[what]
        before = self.everything()
        st, r = self.call(op, thunk, before)
        if st != 'ok':
            return
        P = SP(r)
        d = None if P.reals == mine else 'parameters %s, expected %s' % (P.reals, mine)
        if not d and not np.max(np.abs(P.ev[0] - np.real(A.ev[0]))) <= self.tol(A):
            d = 'another function'
        self.settle(op, 'from_fun', r, d, before, None, what, A.kind)
        if not d:
            self.put(r)

    def x_mpwrap(self, op):
        a = self.pick(op['i'], lambda s: not self.ismp(s))
        if a is None:
            return
        u, v = copy.deepcopy(a), copy.deepcopy(a)
        before = self.everything()
        st, r = self.call(op, lambda: self.vs.MoorePenroseState(u=u, v=v), before)
        if st == 'ok':
            d = None if not SP(a).copied(SP(r).mp[0]) else 'the state is not the one it was built from'
            self.settle(op, 'mpwrap', r, d, before, None)
            self.put(r)

    # ---- writing to one object
    def x_poke(self, op):
        rec = self.rec
        rec.count('op:poke')
        before = self.everything()
        pool = [o for o, _ in before]
        o = pool[op['i'] % len(pool)]
        c = 1.0 + op['f']
        k = 'poke'
        try:
            how = self.poke(o, op, c)
        except Exception as e:
            return rec.violate('error', k, 'writing to one object: %s: %s' % (type(e).__name__, e))
        self.unchanged(before, k, but=(o,), oracle='shared', what='(after writing to the %s of one object)' % how)
        rec.event('poke', how)
        rec.state(('poke', how, type(o).__name__, self.cfg['basis']))

    def poke(self, o, op, c):
        if not isinstance(o, (self.vs.BaseState, self.vs.MoorePenroseState)):
            if isfun(o):
                return self.pokefun(o, op['k'], c)
            if isinstance(o, np.ndarray):
                o *= c
                return 'array'
            o.value = o.value + 1.0
            return 'parameter'
        s = o
        if self.ismp(o):
            s = o.u if op['k'] & 1 else o.v
        what = op['j'] % 5
        if what == 0:
            s.weights[op['k'] % len(s.weights)] *= c
            return 'weights'
        if what == 1 and len(s.reals):
            r = s.reals[op['k'] % len(s.reals)]
            if op['f'] < .5:
                r.value = r.value + 1.0
            else:
                r += 0.5
            return 'parameter'
        if what == 2:
            s['zeta'] = c
            for q in list(s.ns):
                if q != 'zeta' and op['k'] & 1:
                    v = s.ns[q]
                    if hasattr(v, 'value'):
                        v.value = v.value + 2.0
                    else:
                        s.ns[q] = v + 2.0
            return 'namespace'
        return self.pokefun(s.funcs[op['k'] % len(s.funcs)], op['k'], c)

    def pokefun(self, f, k, c):
        if k % 3 == 0:
            f *= c
            return 'function'
        t = f.onefun
        if self.cfg['basis'] == 'cheb' and k % 3 == 1:
            try:
                t.coeffs *= c
                return 'coefficients'
            except Exception:
                pass
        f += c
        return 'function'
