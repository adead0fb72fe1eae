"""A world of live functions, the operations on them and the reference each operation is checked against.

Every handler builds a Task: a thunk over the operand objects plus the expected outcome computed from numerical
snapshots of the operands by the independent model.  The same tasks are run plainly (P01-P03), cut short by faults
(P04), and interleaved by the simulated thread scheduler (P05)."""
import copy
import math

import numpy as np

from .model import PROBE, DENSE, Snap, cheb_eval, trig_eval, modes, odd, gauss
from .hooks import StepLimit

DOMS = [(-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0), (0.0, 10.0), (-math.pi, math.pi), (5.0, 5.5)]
STEP_LIMIT = 400000


def dropped(S):
    """what a real Fourier series still holds of an imaginary part"""
    if not S.real.any():
        return 0.0
    c = odd(S.c)[:, S.real]
    return min(1e-9, float(np.abs(c - np.conj(c[::-1])).sum()))


class Skip(Exception):
    """the operation's precondition does not hold in the current state"""


def series(n, m, s, kind, cplx=False, decay=0.6, zeromean=False, scale=1.0, even=False):
    r = np.random.RandomState(s)
    if kind == 'cheb':
        c = r.uniform(-1, 1, (n, m)) * (decay ** np.arange(n))[:, None] * scale
        return np.asfortranarray(c)
    n = n | 1
    k = modes(n)
    a = r.uniform(-1, 1, (n, m)) + 1j * r.uniform(-1, 1, (n, m))
    c = a * (decay ** np.abs(k))[:, None] * scale
    if not cplx:
        c = 0.5 * (c + np.conj(c[::-1]))
    if zeromean:
        c[n // 2] = 0
    if even and n > 1:          # the highest mode unpaired: a cosine
        c = c[:-1]
        c[0] = 2 * c[0] if cplx else 2 * np.real(c[0])
    return np.asfortranarray(c)


def op_library(name, a, dom):
    """callables used for adaptive construction: (f on the interval, f on [-1,1])"""
    lo, hi = dom
    ref = lambda x: (2 * x - lo - hi) / (hi - lo)
    fns = dict(
        exp=lambda z: np.exp(a * z), sin=lambda z: np.sin(3 * a * z + 0.3), runge=lambda z: 1 / (1 + (2 * a * z) ** 2),
        poly=lambda z: z ** 3 - a * z + 0.25, pos=lambda z: 2 + np.cos(2 * a * z),
        tsin=lambda z: np.sin(np.pi * z) + 0.5 * np.cos(2 * np.pi * z) * a, texp=lambda z: np.exp(a * np.cos(np.pi * z)),
        tpos=lambda z: 2.5 + a * np.sin(np.pi * z), tcos3=lambda z: np.cos(3 * np.pi * z + a),
        const=lambda z: a + 0 * z)
    g = fns[name]
    return (lambda x: g(ref(x))), g


CHEB_OPS = ['exp', 'sin', 'runge', 'poly', 'pos', 'const']
TRIG_OPS = ['tsin', 'texp', 'tpos', 'tcos3']

UFUNCS = ['exp', 'sin', 'cos', 'tanh', 'cosh', 'sqrt', 'log', 'square', 'reciprocal', 'arctan', 'sinh', 'expm1']

# op kind -> weight in the default mix
READS = dict(eval=6, evalscalar=2, sum=3, norm=3, h1norm=1, dot=2, inner=3, innerw=1, roots=2, minandmax=3, values=2,
             props=2, eq=1, text=1, ends=1, prolong_coeffs=2, iterate=2, restrict=2, sturm=1, feval=2, normh=1, norm2=1,
             evalmat=1, wkp=1, happy=1, wnorm=1, sturmalt=1, h2norm=1)
PURE = dict(add=5, sub=4, mul=5, div=3, adds=3, rsubs=2, muls=3, divs=2, rdivs=2, neg=2, pos=2, pow=3, rpow=1, ufunc=4,
            abs=1, bcast=3, coefmul=1, tcompose=1, diff=4, cumsum=3, roll=2, convolve=1, adhesion=1, col=3, cols=2, hstack=2, real=1, imag=1, conj=1,
            copy=2, deepcopy=2, zeros_like=1, ones_like=1, prolongf=2, compose=2, normalize=1, qr=2, flip=1,
            convert=1, compose2=1, repr_tech=0, mulvec=1, addvec=1)
INPLACE = dict(ibcast=2, iadd=4, isub=3, imul=3, idiv=2, iadds=2, imuls=2, idivs=1, simplify=2, prolong=3, outarg=2, isubs=1)
POKE = dict(poke=2)
TOLS = dict(seteps=2)                # not for P03: a looser tolerance changes what results are accurate to
STRUCT = dict(new=6, alias=2, drop=1)
BAD = dict(bad_domain=2, bad_index=1, bad_eval=1, bad_callback=2, bad_shape=1, bad_cumsum=1)


def weights(*groups):
    w = {}
    for g, f in groups:
        for k, v in g.items():
            if v * f > 0:
                w[k] = w.get(k, 0) + v * f
    return w


def pick(rng, w):
    t = rng.random() * sum(w.values())
    for k in w:
        t -= w[k]
        if t <= 0:
            return k
    return k


def gen_new(rng, cfg, force_group=None):
    g = rng.randrange(len(cfg['groups'])) if force_group is None else force_group
    kind = cfg['groups'][g][0]
    how = pick(rng, dict(coeffs=5, op=3, values=1, const=1, ctor=2))
    m = rng.choice(cfg['ms'])
    op = dict(op='new', g=g, how=how, m=m, s=rng.randrange(1 << 30), n=rng.choice([1, 2, 3, 5, 9, 17, 24, 33]),
              decay=rng.choice([0.3, 0.6, 0.8]), scale=rng.choice([1.0, 1.0, 1.0, 0.01, 30.0, 4e-11]))
    if kind == 'trig':
        op['cplx'] = rng.random() < 0.3
        op['zm'] = rng.random() < 0.35
        op['even'] = rng.random() < 0.2
        op['n'] |= 1
        op['n'] = max(3, op['n']) if op['zm'] else op['n']
    if how == 'op':
        lib = CHEB_OPS if kind == 'cheb' else TRIG_OPS
        op['fns'] = [[rng.choice(lib), round(rng.uniform(0.3, 1.5), 3)] for _ in range(m)]
    if how == 'ctor':
        op['which'] = rng.choice(['zeros', 'ones', 'random_decay', 'random', 'from_coeffs', 'from_values', 'from_ultra', 'asfun'])
    return op


def gen_op(rng, cfg, w):
    k = pick(rng, w)
    if k == 'new':
        return gen_new(rng, cfg)
    op = dict(op=k, i=rng.randrange(64), j=rng.randrange(64))
    r = rng.random
    if k in ('adds', 'rsubs', 'muls', 'divs', 'rdivs', 'iadds', 'imuls', 'idivs', 'isubs'):
        op['a'] = rng.choice([2e-11, 3e4, 2, 2, -1, -1, 0.5, 1.0, 3.25, -0.125, round(rng.uniform(-3, 3), 4) or 1.0, 0])
        op['ty'] = rng.choice(['py', 'py', 'np', 'cplx', 'left', 'np0'])
    elif k == 'pow':
        op['p'] = rng.choice([0, 1, 2, 3, 2.0, 0.5, -1])
    elif k == 'rpow':
        op['a'] = rng.choice([2.0, 0.5, 1.5])
    elif k == 'ufunc':
        op['f'] = rng.choice(UFUNCS)
    elif k == 'diff':
        op['k'] = rng.choice([1, 1, 1, 2, 3])
    elif k == 'roll':
        op['a'] = rng.choice([0, 1, -1, 0.5, round(rng.uniform(-2, 2), 3)])
    elif k in ('prolong', 'prolongf', 'prolong_coeffs'):
        op['d'] = rng.choice([0, 1, 2, 3, 7, 20, -1, -2, 50])
    elif k in ('col', 'cols'):
        op['c'] = rng.randrange(8)
        op['c2'] = rng.randrange(8)
    elif k in ('norm', 'norm2', 'sturm'):
        op['p'] = rng.choice([2, 2, 4, 'inf', 1, 3])
    elif k in ('eval', 'feval', 'evalmat'):
        op['n'] = rng.choice([1, 2, 5, 40])
        op['s'] = rng.randrange(1 << 20)
    elif k == 'evalscalar':
        op['x'] = round(rng.uniform(0, 1), 4) if r() < 0.7 else rng.choice([0.0, 1.0])
    elif k == 'restrict':
        op['a'], op['b'] = sorted([round(rng.uniform(-1, 1), 3), round(rng.uniform(-1, 1), 3)])
        if r() < 0.15:
            op['a'], op['b'] = -1, 1
    elif k == 'hstack':
        op['l'] = rng.randrange(64)
        op['three'] = r() < 0.4
    elif k == 'outarg':
        op['l'] = rng.randrange(64)
        op['f'] = rng.choice(['add', 'subtract', 'multiply'])
    elif k == 'poke':
        op['a'] = round(rng.uniform(-2, 2), 3)
        op['how'] = rng.choice(['scale', 'entry', 'assign'])
    elif k == 'flip':
        op['lr'] = r() < 0.5
    elif k == 'simplify':
        op['eps'] = rng.choice([None, None, 1e-13])
    elif k == 'seteps':
        op['e'] = rng.randrange(3)
    elif k == 'compose':
        op['f'] = rng.choice(['sq1', 'cos', 'aff'])
    elif k in ('mulvec', 'addvec'):
        op['s'] = rng.randrange(1 << 20)
    elif k == 'wkp':
        op['k'] = rng.choice([0, 1, 2])
    elif k == 'deepcopy':
        op['how'] = rng.choice(['deepcopy', 'list'])
    elif k == 'bad_callback':
        op['how'] = rng.choice(['raise', 'nan', 'compose'])
        op['k'] = rng.randrange(1, 6)
    elif k == 'minandmax' or k == 'roots':
        pass
    return op


class Task:
    def __init__(self, kind, reads, thunk, target=None, expect=None, store=True, arrays=(), must_fail=False,
                 same_object=None):
        self.kind = kind
        self.reads = reads            # slot indices whose objects the thunk receives
        self.thunk = thunk            # thunk(list of objects) -> result
        self.target = target          # index into reads of the in-place target, or None
        self.expect = expect          # callable(result) -> list of (oracle, detail) problems
        self.store = store            # store resulting functions into new slots
        self.arrays = arrays          # caller-owned arrays that must not change
        self.must_fail = must_fail


def close(got, want, tol, what='value'):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        try:
            if got.size == want.size:
                got = got.reshape(want.shape)
            else:
                return '%s has shape %s, expected %s' % (what, got.shape, want.shape)
        except Exception:
            return '%s has shape %s, expected %s' % (what, got.shape, want.shape)
    if got.dtype == object:
        return '%s has object dtype' % what
    if not np.all(np.isfinite(got)):
        return '%s is not finite' % what
    e = np.max(np.abs(got - want)) if got.size else 0.0
    if not e <= tol:
        return '%s off by %.3g (tolerance %.3g)' % (what, e, tol)
    return None


class World:
    def __init__(self, cfg):
        import funpy
        import funpy.fun as F
        self.fp, self.F = funpy, F
        self.cfg = cfg
        self.slots = []               # live function objects (names); several may be the same object
        self.maxslots = cfg.get('maxslots', 10)

    # ----------------------------------------------------------------------------------------- helpers
    def pickslot(self, i, pred=None):
        c = [k for k, f in enumerate(self.slots) if pred is None or pred(k)]
        if not c:
            raise Skip('no operand')
        return c[i % len(c)]

    def snap(self, k):
        return Snap(self.slots[k])

    def same_group(self, i, m=None):
        f = self.slots[i]
        key = (f.istrig, tuple(float(x) for x in f.domain))
        def pred(k):
            g = self.slots[k]
            return (g.istrig, tuple(float(x) for x in g.domain)) == key and (m is None or g.m in m)
        return pred

    def xgrid(self, S, z):
        a, b = S.dom
        return np.clip((b * (z + 1) + a * (1 - z)) / 2, a, b)

    def rtol(self, S):
        return 1e-8 if S.kind == 'trig' else 1e-9

    # an adaptive construction stops at a plateau below eps**(2/3)  (eps is 1e-10 for Fourier series)
    def ctol(self, S):
        return 1e-6 if S.kind == 'trig' else 1e-9

    # expected function value: E(z) on [-1,1]; scale sets the absolute tolerance
    def expect_fun(self, kind, dom, m, E, scale, rtol, isreal=None):
        def chk(res):
            probs = []
            if not isinstance(res, self.F.Fun):
                return [('value', 'result is %s, not a function' % type(res).__name__)]
            t = 'trig' if res.istrig else 'cheb'
            if t != kind:
                return [('value', 'result type %s, expected %s' % (t, kind))]
            if not np.allclose(np.asarray(res.domain, float), dom, rtol=0, atol=1e-12):
                return [('value', 'result lives on %s, expected %s' % (res.domain, dom))]
            S = Snap(res)
            if S.c.ndim != 2 or S.m != m:
                return [('value', 'result has shape %s, expected %d columns' % (S.c.shape, m))]
            want = np.asarray(E(PROBE))
            tol = rtol * max(scale, 1e-12) + 1e-14
            if kind == 'trig' and want.size:          # a constant with a tiny wiggle may be chopped to the constant
                wiggle = float(np.max(np.abs(want - want.mean(axis=0))))
                if wiggle < 3e-6 * max(scale, 1e-12):
                    tol += wiggle
            if kind == 'trig' and S.real.any():       # imaginary parts below eps (1e-10) of a former scale are dropped
                tol += dropped(S)
            p = close(S.ev(PROBE), want, tol, 'result (coefficients)')
            if p:
                probs.append(('value', p))
            p = self.evaluated(res, S, tol, want)
            if p:
                probs.append(('value', p))
            return probs
        return chk

    def evaluated(self, f, S, tol, want=None):
        x = self.xgrid(S, PROBE)
        try:
            got = np.asarray(f(x))
        except Exception as e:
            return 'evaluating the function raised %s: %s' % (type(e).__name__, e)
        want = S.ev(PROBE) if want is None else want
        return close(got.reshape(len(PROBE), -1) if got.size == len(PROBE) * S.m else got, want, tol, 'evaluation')

    def wellformed(self, f):
        """coefficients, sample values, sample points and evaluation describe one function"""
        try:
            S = Snap(f)
        except Exception as e:
            return 'cannot be inspected: %s %s' % (type(e).__name__, e)
        if S.c.ndim != 2 or S.c.size == 0:
            return 'coefficients have shape %s' % (S.c.shape,)
        if not np.all(np.isfinite(S.c)):
            return 'coefficients not finite'
        try:
            if f.shape != S.c.shape or len(f) != S.n or f.m != S.m or f.n != S.n:
                return 'shape/len/n/m disagree with the coefficients'
            z = np.asarray(f.onefun.x, float)
            if z.size != S.n:
                return '%d sample points for length %d' % (z.size, S.n)
            vals = np.asarray(f.values)
        except Exception as e:
            return 'query raised %s: %s' % (type(e).__name__, e)
        if vals.shape != S.c.shape:
            return 'values have shape %s, coefficients %s' % (vals.shape, S.c.shape)
        sc = max(float(np.max(np.abs(S.c).sum(axis=0))), 1e-300)
        tol = 1e-10 * sc * max(1, S.n / 16.) + 1e-13
        if S.kind == 'trig':
            if S.real.size != S.m:
                return 'real flag has %d entries for %d columns' % (S.real.size, S.m)
            # (what counts as real was decided at the scale the function had before a cancellation)
            small = 1e-9 if sc < 1e-3 else 1e-13
            tol = 1e-9 * sc + small
            vz = trig_eval(S.c, z)
        else:
            vz = cheb_eval(S.c, z)
        p = close(vals, vz, tol, 'sample values vs coefficients')
        if p:
            return p
        if S.kind == 'trig' and S.real.any():
            im = np.max(np.abs(np.imag(vz[:, S.real])))
            if im > 1e-8 * sc + 10 * small:
                return 'flagged real but imaginary part %.3g' % im
        return self.evaluated(f, S, tol)

    # ----------------------------------------------------------------------------------------- operations
    def build(self, op):
        """Task for one plan operation in the current state (raises Skip when not applicable)."""
        return getattr(self, 'do_' + op['op'])(op)

    # -- construction
    def do_new(self, op):
        F = self.F
        kind, dom = self.cfg['groups'][op['g'] % len(self.cfg['groups'])]
        dom = tuple(dom)
        m, n = op['m'], op['n']
        how = op['how']
        cplx = bool(op.get('cplx')) and kind == 'trig'
        c = series(n, m, op['s'], kind, cplx, op['decay'], op.get('zm', False), op['scale'], bool(op.get('even')))
        n = c.shape[0]
        ev = (lambda z: trig_eval(c, z)) if kind == 'trig' else (lambda z: cheb_eval(c, z))
        sc = float(np.max(np.abs(ev(DENSE)))) + 1e-12
        arrays = [c]
        if how == 'op':
            fs = [op_library(nm, a, dom) for nm, a in op['fns']]
            ops = [f[0] for f in fs]
            E = lambda z: np.stack([f[1](z) + 0 * z for f in fs], axis=1)
            arg = ops[0] if m == 1 and op['s'] % 2 else list(ops)
            thunk = lambda o: F.Fun(op=arg, domain=list(dom), type=kind)
            sc = float(np.max(np.abs(E(DENSE))))
            return Task('new:op', [], thunk, expect=self.expect_fun(kind, dom, m, E, sc, 1e-8 if kind == 'trig' else 1e-9))
        if how == 'values':
            z = -1 + 2 * np.arange(n) / n if kind == 'trig' else -np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1)
            if kind == 'cheb' and n == 1:
                z = np.zeros(1)
            v = np.asfortranarray(ev(z))
            if kind == 'trig' and not cplx:
                v = np.asfortranarray(np.real(v))
            arrays = [v]
            thunk = lambda o: F.Fun(op=v, domain=list(dom), type=kind)
        elif how == 'const':
            a = [0.0, 1.0, -2.5, 0.3][op['s'] % 4]
            E = lambda z: np.full((len(z), m), a)
            arr = np.full((1, m), a, order='F')
            thunk = lambda o: F.Fun(coeffs=arr, domain=list(dom), type=kind, simplify=False)
            return Task('new:const', [], thunk, arrays=[arr], expect=self.expect_fun(kind, dom, m, E, abs(a), 1e-9))
        elif how == 'ctor':
            w = op['which']
            if w in ('zeros', 'ones'):
                a = 0.0 if w == 'zeros' else 1.0
                thunk = lambda o: getattr(F, w)(m, domain=list(dom), type=kind)
                return Task('new:' + w, [], thunk, expect=self.expect_fun(kind, dom, m, lambda z: np.full((len(z), m), a), 1, 1e-9))
            if w in ('random', 'random_decay'):
                if kind == 'trig':
                    raise Skip('random trig')
                st = op['s'] % (1 << 30)
                n2 = min(n, 9)
                U = np.random.RandomState(st).rand(n2, m)
                cc = (1.0 - 2.0 * U) if w == 'random' else (1 - 2.0 * (U / ((1 + np.arange(n2)) ** 2)[:, None]))
                def thunk(o):
                    np.random.seed(st)
                    return getattr(F, w)(n2, m, domain=list(dom), type=kind)
                return Task('new:' + w, [], thunk, expect=self.expect_fun(kind, dom, m, lambda z: cheb_eval(cc, z), n2, 1e-9))
            if w == 'from_coeffs':
                flat = c.flatten(order='F')
                arrays = [flat]
                thunk = lambda o: F.Fun.from_coeffs(flat, m, domain=list(dom), type=kind)
            elif w == 'from_values':
                z = -1 + 2 * np.arange(n) / n if kind == 'trig' else (-np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1))
                v = np.asfortranarray(ev(z))
                if kind == 'trig':
                    raise Skip('trig from_values')
                arrays = [v]
                thunk = lambda o: F.Fun.from_values(v, m, domain=list(dom), type=kind)
            elif w == 'from_ultra':
                if kind == 'trig' or op['decay'] > .7:
                    raise Skip('from_ultra')
                from scipy.special import eval_gegenbauer
                lam = [1, 2][op['s'] % 2]
                flat = c.flatten(order='F')
                E = lambda z: np.stack([sum(c[k, q] * eval_gegenbauer(k, lam, z) for k in range(n)) for q in range(m)], axis=1)
                sc = float(np.max(np.abs(E(DENSE)))) + 1e-12
                thunk = lambda o: F.Fun.from_ultra(flat, m, lam, domain=list(dom), type=kind)
                return Task('new:from_ultra', [], thunk, arrays=[flat], expect=self.expect_fun(kind, dom, m, E, sc, 1e-9))
            else:
                a = 1.75
                thunk = lambda o: F.asfun(a, domain=list(dom), type=kind)
                return Task('new:asfun', [], thunk, expect=self.expect_fun(kind, dom, 1, lambda z: np.full((len(z), 1), a), 1, 1e-9))
        else:
            thunk = lambda o: F.Fun(coeffs=c, domain=list(dom), type=kind, simplify=bool(op['s'] % 2))
        return Task('new:' + how, [], thunk, arrays=arrays,
                    expect=self.expect_fun(kind, dom, m, ev, sc, 1e-8 if kind == 'trig' else 1e-9))

    def do_alias(self, op):
        if len(self.slots) >= self.maxslots:
            raise Skip('full')
        self.slots.append(self.slots[self.pickslot(op['i'])])
        return None

    def do_drop(self, op):
        if len(self.slots) <= 2:
            raise Skip('few')
        del self.slots[op['i'] % len(self.slots)]
        return None

    # -- binary arithmetic
    def pair(self, op, mulok=False):
        i = self.pickslot(op['i'])
        f = self.slots[i]
        j = self.pickslot(op['j'], self.same_group(i, {f.m}))
        return i, j, self.snap(i), self.snap(j)

    def small(self, *S, n=160, scale=1e4):
        for s in S:
            if s.n > n or s.scale() > scale:
                raise Skip('too large')

    def binary(self, op, name, fn):
        i, j, A, B = self.pair(op)
        self.small(A, B)
        sa, sb = A.scale(), B.scale()
        if name == 'div':
            y = np.abs(B.ev(DENSE))
            if np.any(y.min(axis=0) < 0.25 * y.max(axis=0)) or y.min() < 1e-6 or B.n > 60:
                raise Skip('divisor near zero')
            sc = sa / y.min() + 1e-3 * sa
        elif name == 'mul':
            sc = sa * sb
        else:
            sc = sa + sb
        E = lambda z: fn(A.ev(z), B.ev(z))
        return i, j, A, B, E, sc

    def mk_binary(self, op, name, fn):
        i, j, A, B, E, sc = self.binary(op, name, fn)
        return Task(name, [i, j], lambda o: fn(o[0], o[1]),
                    expect=self.expect_fun(A.kind, A.dom, A.m, E, sc, self.ctol(A) if name == 'div' else self.rtol(A)))

    def do_add(self, op):
        return self.mk_binary(op, 'add', lambda a, b: a + b)

    def do_sub(self, op):
        return self.mk_binary(op, 'sub', lambda a, b: a - b)

    def do_mul(self, op):
        return self.mk_binary(op, 'mul', lambda a, b: a * b)

    def do_div(self, op):
        return self.mk_binary(op, 'div', lambda a, b: a / b)

    def mk_inplace(self, op, name, fn, inpl):
        i, j, A, B, E, sc = self.binary(op, name, fn)
        if self.slots[i] is not self.slots[j] and False:
            raise Skip('')
        chk = self.expect_fun(A.kind, A.dom, A.m, E, sc, self.ctol(A) if name == 'div' else self.rtol(A))
        return Task('i' + name, [i, j], lambda o: inpl(o[0], o[1]), target=0, expect=chk)

    def do_iadd(self, op):
        def f(a, b):
            a += b
            return a
        return self.mk_inplace(op, 'add', lambda a, b: a + b, f)

    def do_isub(self, op):
        def f(a, b):
            a -= b
            return a
        return self.mk_inplace(op, 'sub', lambda a, b: a - b, f)

    def do_imul(self, op):
        def f(a, b):
            a *= b
            return a
        return self.mk_inplace(op, 'mul', lambda a, b: a * b, f)

    def do_idiv(self, op):
        def f(a, b):
            a /= b
            return a
        return self.mk_inplace(op, 'div', lambda a, b: a / b, f)

    def do_outarg(self, op):
        fn = getattr(np, op['f'])
        i, j, A, B, E, sc = self.binary(op, {'add': 'add', 'subtract': 'sub', 'multiply': 'mul'}[op['f']], fn)
        l = self.pickslot(op['l'], self.same_group(i, {A.m}))
        if A.n == 1 or B.n == 1:
            raise Skip('constant operand with an output argument')
        return Task('out:' + op['f'], [l, i, j], lambda o: fn(o[1], o[2], out=o[0]), target=0,
                    expect=self.expect_fun(A.kind, A.dom, A.m, E, sc, self.rtol(A)))

    # -- one column combined with several
    def bpair(self, op):
        i = self.pickslot(op['i'])
        j = self.pickslot(op['j'], self.same_group(i, {1}))
        A, B = self.snap(i), self.snap(j)
        if A.m == 1 and op['j'] % 3:
            raise Skip('one column')
        self.small(A, B)
        return i, j, A, B

    def do_bcast(self, op):
        i, j, A, B = self.bpair(op)
        name, fn = [('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('rmul', lambda a, b: b * a),
                    ('radd', lambda a, b: b + a), ('rsub', lambda a, b: b - a)][op['i'] % 6]
        sc = A.scale() * B.scale() if 'mul' in name else A.scale() + B.scale()
        how = op['j'] % 5
        if how in (0, 1) and B.n <= 60:      # with one column that was updated in place before
            def thunk(o):
                b = copy.deepcopy(o[1])
                if how:
                    b *= copy.deepcopy(o[1])
                else:
                    b += copy.deepcopy(o[1])
                return fn(o[0], b)
            sc *= B.scale() + 2
            ev = (lambda z: B.ev(z) ** 2) if how else (lambda z: 2 * B.ev(z))
            return Task('bcast2:' + name, [i, j], thunk,
                        expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z), ev(z)), sc, 2 * self.rtol(A)))
        return Task('bcast:' + name, [i, j], lambda o: fn(o[0], o[1]),
                    expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z), B.ev(z)), sc, self.rtol(A)))

    def do_ibcast(self, op):
        i, j, A, B = self.bpair(op)
        if self.slots[i] is self.slots[j]:
            raise Skip('same')
        name = ['add', 'sub', 'mul'][op['i'] % 3]
        fn = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b)[name]
        def upd(o):
            f = o[0]
            if name == 'add':
                f += o[1]
            elif name == 'sub':
                f -= o[1]
            else:
                f *= o[1]
            return f
        sc = A.scale() * B.scale() if name == 'mul' else A.scale() + B.scale()
        return Task('ibcast:' + name, [i, j], upd, target=0,
                    expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z), B.ev(z)), sc, self.rtol(A)))

    def do_coefmul(self, op):      # an array of the shape of the coefficients multiplies coefficient by coefficient
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S)
        if S.n == 1 or S.n * S.m == 1:
            raise Skip('constant')
        v = np.random.RandomState(op['j']).uniform(0.5, 1.5, S.c.shape)
        if S.kind == 'trig':                      # keeps real functions real
            v = (v + v[::-1]) / 2 if S.n % 2 else np.concatenate([v[:1], (v[1:] + v[:0:-1]) / 2])
        left = op['j'] % 2 and S.kind == 'cheb'
        ev = trig_eval if S.kind == 'trig' else cheb_eval
        return Task('coefmul', [i], (lambda o: v * o[0]) if left else (lambda o: o[0] * v), arrays=[v],
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: ev(S.c * v, z), float(np.abs(S.c).sum(axis=0).max()) * 1.5, self.rtol(S)))

    # -- scalars
    def scalar(self, op, S):
        a, ty = op['a'], op['ty']
        if ty == 'np':
            return np.float64(a)
        if ty == 'cplx' and S.kind == 'trig':
            return complex(a, 0.5)
        if ty == 'np0' and op['op'] in ('muls', 'imuls', 'adds', 'iadds'):
            return np.float64(a)
        return a

    def mk_scalar(self, op, name, fn, inpl=None):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=300)
        a = self.scalar(op, S)
        if name == 'div' and abs(a) < 1e-3:
            raise Skip('division by zero')
        sc = {'add': S.scale() + abs(a), 'rsub': S.scale() + abs(a), 'mul': S.scale() * abs(a),
              'div': S.scale() / max(abs(a), 1e-9)}[name]
        E = lambda z: fn(S.ev(z), a)
        chk = self.expect_fun(S.kind, S.dom, S.m, E, sc, self.rtol(S))
        if inpl is not None:
            return Task('i%ss' % name, [i], lambda o: inpl(o[0], a), target=0, expect=chk)
        if op['ty'] == 'left' and name in ('add', 'mul'):
            return Task('r%ss' % name, [i], lambda o: (a + o[0]) if name == 'add' else (a * o[0]), expect=chk)
        return Task(name + 's', [i], lambda o: fn(o[0], a), expect=chk)

    def do_adds(self, op):
        return self.mk_scalar(op, 'add', lambda f, a: f + a)

    def do_rsubs(self, op):
        return self.mk_scalar(op, 'rsub', lambda f, a: a - f)

    def do_muls(self, op):
        return self.mk_scalar(op, 'mul', lambda f, a: f * a)

    def do_divs(self, op):
        return self.mk_scalar(op, 'div', lambda f, a: f / a)

    def do_iadds(self, op):
        def g(f, a):
            f += a
            return f
        return self.mk_scalar(op, 'add', lambda f, a: f + a, g)

    def do_isubs(self, op):
        def g(f, a):
            f -= a
            return f
        return self.mk_scalar(dict(op, op='iadds'), 'add', lambda f, a: f - a, g)

    def do_imuls(self, op):
        def g(f, a):
            f *= a
            return f
        return self.mk_scalar(op, 'mul', lambda f, a: f * a, g)

    def do_idivs(self, op):
        def g(f, a):
            f /= a
            return f
        return self.mk_scalar(op, 'div', lambda f, a: f / a, g)

    def nonvanishing(self, S, ratio=0.25):
        y = np.abs(S.ev(DENSE))
        if np.any(y.min(axis=0) < ratio * y.max(axis=0)) or y.min() < 1e-5:
            raise Skip('vanishes')
        return y

    def do_rdivs(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=60)
        y = self.nonvanishing(S)
        a = op['a'] if op['ty'] != 'np' else np.float64(op['a'])
        sc = abs(a) / y.min() + abs(a)
        return Task('rdivs', [i], lambda o: a / o[0],
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: a / S.ev(z), sc, self.ctol(S)))

    def vec(self, op, m):
        return np.random.RandomState(op['s']).uniform(0.5, 2, (1, m))

    def do_addvec(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        v = self.vec(op, S.m)
        return Task('addvec', [i], lambda o: o[0] + v, arrays=[v],
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: S.ev(z) + v, S.scale() + 2, self.rtol(S)))

    def do_mulvec(self, op):      # column scaling by division with a row vector
        i = self.pickslot(op['i'])
        S = self.snap(i)
        v = self.vec(op, S.m)
        return Task('divvec', [i], lambda o: o[0] / v, arrays=[v],
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: S.ev(z) / v, 2 * S.scale(), self.rtol(S)))

    # -- unary
    def unary(self, op, name, fn, E=None, sc=None, n=300, rtol=None, m=None, kind=None):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=n)
        e = (lambda z: E(S, z)) if E else S.ev
        return Task(name, [i], lambda o: fn(o[0]),
                    expect=self.expect_fun(kind or S.kind, S.dom, S.m if m is None else m, e,
                                           S.scale() if sc is None else sc(S), rtol or self.rtol(S)))

    def do_neg(self, op):
        return self.unary(op, 'neg', lambda f: -f, lambda S, z: -S.ev(z))

    def do_pos(self, op):
        return self.unary(op, 'pos', lambda f: +f)

    def do_copy(self, op):
        return self.unary(op, 'copy', lambda f: np.copy(f))

    def do_deepcopy(self, op):
        if op.get('how') == 'list':
            return self.unary(op, 'deepcopy', lambda f: copy.deepcopy([f, f])[0])
        return self.unary(op, 'deepcopy', copy.deepcopy)

    def do_zeros_like(self, op):
        return self.unary(op, 'zeros_like', np.zeros_like, lambda S, z: np.zeros((len(z), S.m)))

    def do_ones_like(self, op):
        return self.unary(op, 'ones_like', np.ones_like, lambda S, z: np.ones((len(z), S.m)))

    def do_real(self, op):
        return self.unary(op, 'real', np.real, lambda S, z: np.real(S.ev(z)))

    def do_imag(self, op):
        return self.unary(op, 'imag', np.imag, lambda S, z: np.imag(S.ev(z)))

    def do_conj(self, op):
        return self.unary(op, 'conj', np.conj, lambda S, z: np.conj(S.ev(z)))

    def do_pow(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        p = op['p']
        self.small(S, n=60, scale=50)
        if p in (0.5, -1):
            self.nonvanishing(S)
            if p == 0.5 and (not self.isreal(S) or S.ev(DENSE).min() <= 0):
                raise Skip('not positive')
        if p == -1 and S.kind == 'trig' and not self.isreal(S):
            raise Skip('complex negative power')
        sc = max(1.0, S.scale()) ** max(1, p)
        if p == -1:
            sc = 1 / np.abs(S.ev(DENSE)).min() + 1
        def E(z):
            y = S.ev(z)
            return np.power(y if np.iscomplexobj(y) else y.astype(float), float(p))
        return Task('pow', [i], lambda o: o[0] ** p, expect=self.expect_fun(S.kind, S.dom, S.m, E, sc, self.ctol(S)))

    def do_rpow(self, op):
        i = self.pickslot(op['i'], lambda k: self.slots[k].istrig)
        S = self.snap(i)
        self.small(S, n=40, scale=3)
        a = op['a']
        return Task('rpow', [i], lambda o: a ** o[0],
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: np.power(a + 0j if np.iscomplexobj(S.ev(z)) else a, S.ev(z)), 8, self.ctol(S)))

    def isreal(self, S):
        return S.kind == 'cheb' or bool(S.real.all())

    def do_ufunc(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=48, scale=3.0)
        f = op['f']
        y = S.ev(DENSE)
        if not self.isreal(S):
            if f not in ('exp', 'sin', 'cos', 'square'):
                raise Skip('complex')
        elif f in ('sqrt', 'log') and (y.min() < 0.3 or y.min() < 0.25 * y.max()):
            raise Skip('not positive')
        if f == 'reciprocal':
            self.nonvanishing(S)
        if f in ('tanh', 'arctan') and S.scale() > 1.2:
            raise Skip('poles close')
        fn = getattr(np, f)
        with np.errstate(all='ignore'):
            sc = float(np.max(np.abs(fn(y)))) + 1.0
        return Task('ufunc:' + f, [i], lambda o: fn(o[0]),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: fn(S.ev(z)), sc, max(10 * self.rtol(S), self.ctol(S))))

    def do_abs(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=60)
        if not self.isreal(S):
            raise Skip('complex')
        self.nonvanishing(S, 0.1)
        return Task('abs', [i], lambda o: abs(o[0]),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: np.abs(S.ev(z)), S.scale(), self.rtol(S)))

    def dertol(self, S, k):
        return float(np.max(np.sum(np.abs(S.c) * (1.0 + np.arange(S.n)[:, None]) ** (2 * k if S.kind == 'cheb' else 0), axis=0))) \
            if S.kind == 'cheb' else float(np.max(np.sum(np.abs(S.c), axis=0))) * (np.pi * S.n / 2) ** k

    def do_diff(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        k = op['k']
        self.small(S, n=100)
        L = S.dom[1] - S.dom[0]
        fac = (2 / L) ** k
        sc = self.dertol(S, k) * fac
        return Task('diff', [i], lambda o: np.diff(o[0], n=k) if k > 1 else np.diff(o[0]),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: S.der(k, z) * fac,
                                           sc + (S.scale() * (S.n ** (2 * k)) * fac * 1e-4 if S.kind == 'cheb' else 0), self.rtol(S)))

    def do_cumsum(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S)
        if S.kind == 'trig' and np.any(np.abs(S.total()) > 1e-11 * S.scale()):
            raise Skip('mean not zero')
        L2 = (S.dom[1] - S.dom[0]) / 2
        return Task('cumsum', [i], lambda o: np.cumsum(o[0]),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: S.integ(z) * L2, S.scale() * L2 * 2, self.rtol(S)))

    def do_bad_cumsum(self, op):
        i = self.pickslot(op['i'], lambda k: self.slots[k].istrig)
        S = self.snap(i)
        if np.all(np.abs(S.total()) < 1e-3 * max(S.scale(), 1e-2)):
            raise Skip('mean zero')
        return Task('bad_cumsum', [i], lambda o: np.cumsum(o[0]), must_fail=True)

    def trigone(self, k):
        f = self.slots[k]
        return f.istrig

    def do_roll(self, op):
        i = self.pickslot(op['i'], self.trigone)
        S = self.snap(i)
        a = op['a']
        return Task('roll', [i], lambda o: np.roll(o[0], a),
                    expect=self.expect_fun('trig', S.dom, S.m, lambda z: S.ev(((z - a + 1) % 2) - 1), S.scale(), self.rtol(S)))

    def conv_pair(self, op):
        i = self.pickslot(op['i'], lambda k: self.trigone(k) and self.slots[k].m == 1)
        f = self.slots[i]
        j = self.pickslot(op['j'], lambda k: self.trigone(k) and self.same_group(i, {1})(k))
        A, B = self.snap(i), self.snap(j)
        self.small(A, B, scale=100)
        a, b = odd(A.c), odd(B.c)
        n = min(len(a), len(b))
        ka, kb = (len(a) - n) // 2, (len(b) - n) // 2
        c = a[ka:ka + n] * b[kb:kb + n]
        return i, j, A, B, c

    def do_convolve(self, op):
        i, j, A, B, c = self.conv_pair(op)
        L = A.dom[1] - A.dom[0]
        return Task('convolve', [i, j], lambda o: np.convolve(o[0], o[1]),
                    expect=self.expect_fun('trig', A.dom, 1, lambda z: L * trig_eval(c, z), L * A.scale() * B.scale(), self.rtol(A)))

    def do_adhesion(self, op):
        i, j, A, B, c = self.conv_pair(op)
        if A.n % 2 == 0 or B.n % 2 == 0:
            raise Skip('kernel coefficients of an even length')
        return Task('adhesion', [i, j], lambda o: self.F.adhesion(o[0], o[1]),
                    expect=self.expect_fun('trig', A.dom, 1, lambda z: trig_eval(c, z), A.scale() * B.scale(), self.rtol(A)))

    def do_col(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        c = op['c'] % S.m
        return Task('col', [i], lambda o: o[0][c],
                    expect=self.expect_fun(S.kind, S.dom, 1, lambda z: S.ev(z)[:, c:c + 1], S.scale(), self.rtol(S)))

    def do_cols(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        a, b = sorted([op['c'] % S.m, op['c2'] % S.m])
        return Task('cols', [i], lambda o: o[0][a:b + 1],
                    expect=self.expect_fun(S.kind, S.dom, b + 1 - a, lambda z: S.ev(z)[:, a:b + 1], S.scale(), self.rtol(S)))

    def do_hstack(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        ids = [i, self.pickslot(op['j'], self.same_group(i))]
        if op['three']:
            ids.append(self.pickslot(op['l'], self.same_group(i)))
        S = [self.snap(k) for k in ids]
        m = sum(s.m for s in S)
        if m > 6:
            raise Skip('wide')
        return Task('hstack', ids, lambda o: np.hstack(list(o)),
                    expect=self.expect_fun('cheb', S[0].dom, m, lambda z: np.hstack([s.ev(z) for s in S]), max(s.scale() for s in S), 1e-9))

    def target_len(self, S, d):
        n = S.n + d
        if S.kind == 'trig':
            # chopping may only drop negligible modes
            n = n | 1 if n <= S.n + 1 else n
        if n > 400:
            raise Skip('long')
        if n < S.n:
            if S.kind == 'trig':
                k = (S.n - n + 1) // 2
                cut = np.concatenate([S.c[:k], S.c[S.n - k:]]) if S.n % 2 else None
                if cut is None or n < 1 or np.max(np.abs(cut)) > 1e-12 * max(S.scale(), 1e-6):
                    raise Skip('would truncate')
            elif n < 1 or np.max(np.abs(S.c[n:])) > 1e-13 * max(S.scale(), 1e-9):
                raise Skip('would truncate')
        return max(n, 1)

    def do_prolongf(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        n = self.target_len(S, op['d'])
        base = self.expect_fun(S.kind, S.dom, S.m, S.ev, S.scale(), self.rtol(S))
        def chk(r):
            p = base(r)
            if not p and r.n != n:
                p = [('value', 'prolong(%d) has length %d' % (n, r.n))]
            return p
        return Task('prolongf', [i], lambda o: self.F.prolong(o[0], n), expect=chk)

    def do_prolong(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        n = self.target_len(S, op['d'])
        base = self.expect_fun(S.kind, S.dom, S.m, S.ev, S.scale(), self.rtol(S))
        def chk(r):
            p = base(r)
            if not p and r.n != n:
                p = [('value', 'prolong(%d) has length %d' % (n, r.n))]
            return p
        return Task('prolong', [i], lambda o: o[0].prolong(n), target=0, expect=chk)

    def do_simplify(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        e = op.get('eps')
        return Task('simplify', [i], (lambda o: o[0].simplify()) if e is None else (lambda o: o[0].simplify(eps=e)), target=0,
                    expect=self.expect_fun(S.kind, S.dom, S.m, S.ev, max(S.scale(), 1e-3), self.rtol(S)))

    def do_seteps(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        e = ([1e-10, 1e-11, 1e-12] if S.kind == 'trig' else [2.0 ** -52, 1e-14, 1e-13])[op['e']]
        return Task('seteps', [i], lambda o: (o[0].seteps(e), o[0])[1], target=0)

    def do_compose(self, op):
        i = self.pickslot(op['i'], lambda k: self.slots[k].m == 1)
        S = self.snap(i)
        self.small(S, n=60, scale=5)
        fn = {'sq1': lambda y: y * y + 1, 'cos': np.cos, 'aff': lambda y: 2 * y - 1}[op['f']]
        return Task('compose', [i], lambda o: self.F.compose(o[0], fn),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: fn(S.ev(z)), 30, max(10 * self.rtol(S), self.ctol(S))))

    def do_compose2(self, op):
        i, j, A, B = self.pair(op)
        if A.m > 1:
            raise Skip('composition is for single columns')
        self.small(A, B, n=60, scale=5)
        fn = lambda a, b: a * b + a
        return Task('compose2', [i, j], lambda o: self.F.compose(o[0], fn, o[1]),
                    expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z), B.ev(z)), 30, max(10 * self.rtol(A), self.ctol(A))))

    def do_tcompose(self, op):
        from funpy.cheb.chebtech import compose
        i, j, A, B = self.pair(op)
        if A.kind == 'trig':
            raise Skip('Chebyshev')
        self.small(A, B, n=60, scale=5)
        wrap = lambda o, t: self.F.Fun(domain=o.domain, onefun=t)
        if op['i'] % 2:
            fn = lambda y: np.cos(y)
            return Task('tcompose', [i], lambda o: wrap(o[0], compose(o[0].onefun, fn)),
                        expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z)), 30, max(10 * self.rtol(A), self.ctol(A))))
        fn = lambda a, b: a * b + np.sin(a)
        return Task('tcompose', [i, j], lambda o: wrap(o[0], compose(o[0].onefun, fn, o[1].onefun)),
                    expect=self.expect_fun(A.kind, A.dom, A.m, lambda z: fn(A.ev(z), B.ev(z)), 30, max(10 * self.rtol(A), self.ctol(A))))

    def do_normalize(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=60)
        nrm = self.norm_ref(S, 2)
        if nrm < 1e-3:
            raise Skip('small')
        return Task('normalize', [i], lambda o: self.F.normalize(o[0]),
                    expect=self.expect_fun(S.kind, S.dom, S.m, lambda z: S.ev(z) / nrm, S.scale() / nrm, self.rtol(S)))

    def do_convert(self, op):
        i = self.pickslot(op['i'], lambda k: self.slots[k].istrig)
        S = self.snap(i)
        self.small(S, n=40)
        if not self.isreal(S) or S.m > 1:
            raise Skip('complex')
        kw = dict(domain=list(S.dom)) if op.get('s', 0) % 2 else {}
        return Task('convert', [i], lambda o: self.F.asfun(o[0], type='cheb', **kw),
                    expect=self.expect_fun('cheb', S.dom, 1, S.ev, S.scale(), 1e-8))

    def do_flip(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        lr = op['lr']
        wrap = lambda o, t: self.F.Fun(domain=o.domain, onefun=t)
        return Task('fliplr' if lr else 'flipud', [i], lambda o: wrap(o[0], o[0].fliplr() if lr else o[0].flipud()),
                    expect=self.expect_fun('cheb', S.dom, S.m, (lambda z: S.ev(z)[:, ::-1]) if lr else (lambda z: S.ev(-z)), S.scale(), 1e-9))

    def do_qr(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        self.small(S, n=80)
        if S.m > S.n:
            raise Skip('more columns than coefficients')
        x, w = gauss(S.n + 4)
        y = S.ev(x)
        G = (y.T * w) @ y
        sv = np.linalg.svd(G, compute_uv=False)
        if sv[-1] < 1e-8 * max(sv[0], 1e-12) or sv[0] < 1e-12:
            raise Skip('rank deficient')
        L2 = (S.dom[1] - S.dom[0]) / 2
        def chk(res):
            try:
                Q, R = res
                T = Snap(Q)
                R = np.asarray(R, float).reshape(S.m, S.m)
                q = T.ev(x)
            except Exception as e:
                return [('value', 'qr returned %s' % e)]
            out = []
            p = close(T.ev(PROBE) @ R, S.ev(PROBE), 1e-8 * S.scale() * (1 + np.sqrt(sv[0] / sv[-1])), 'Q R')
            if p:
                out.append(('value', p))
            xx, ww = gauss(T.n + 4)
            q = T.ev(xx)
            p = close((q.T * ww) @ q * L2, np.eye(S.m), 1e-7 * (1 + sv[0] / sv[-1] * 1e-3), 'Q^T Q')
            if p:
                out.append(('value', p))
            return out
        return Task('qr', [i], lambda o: self.F.qr(o[0]), expect=chk)

    # -- reads
    def num(self, name, i, thunk, want, tol, S=None, arrays=()):
        for k in [i] if isinstance(i, int) else i:
            if self.slots[k].istrig:
                tol = tol + dropped(self.snap(k))
        return Task(name, [i] if isinstance(i, int) else i, thunk, store=False, arrays=arrays,
                    expect=lambda r: [('value', p)] if (p := close(r, want, tol + 1e-14, name)) else [])

    def xs(self, op, S):
        z = np.random.RandomState(op['s']).uniform(-1, 1, op['n'])
        if op['n'] > 2:
            z[0], z[1] = -1, 1
        return z, self.xgrid(S, z)

    def do_eval(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        z, x = self.xs(op, S)
        how = op['s'] % 8
        if how == 0:                  # a list or tuple of points
            return self.num('eval:list', i, lambda o: o[0](list(x) if op['j'] % 2 else tuple(float(t) for t in x)), S.ev(z),
                            self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 30))
        if how == 1:                  # points in a table: refused or not, they stay what they are
            t = np.array(np.hstack([x[:, None]] * (1 + op['j'] % 3)), order='CF'[op['j'] % 2])
            def thunk(o):
                try:
                    o[0](t)
                except (ValueError, TypeError, AssertionError):
                    pass
                return o[0](x)
            return self.num('eval:table', i, thunk, S.ev(z), self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 30), arrays=[t, x])
        return self.num('eval', i, lambda o: o[0](x), S.ev(z), self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 30), arrays=[x])

    def do_feval(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        z, _ = self.xs(op, S)
        return self.num('feval', i, lambda o: o[0].onefun(z), S.ev(z), self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 30), arrays=[z])

    def do_evalmat(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig and self.slots[k].n >= 2)
        S = self.snap(i)
        z, _ = self.xs(op, S)
        return self.num('evalmat', i, lambda o: o[0].onefun.eval(z) @ o[0].onefun.values, S.ev(z),
                        1e-9 * max(S.scale(), 1e-3) * max(1, S.n / 10), arrays=[z])

    def do_evalscalar(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        z = np.array([2 * op['x'] - 1])
        x = float(self.xgrid(S, z)[0])
        z = np.array([(2 * x - S.dom[0] - S.dom[1]) / (S.dom[1] - S.dom[0])])
        return self.num('evalscalar', i, lambda o: o[0](x), S.ev(z), self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 10))

    def do_sum(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        L2 = (S.dom[1] - S.dom[0]) / 2
        return self.num('sum', i, lambda o: np.sum(o[0]), S.total() * L2, self.rtol(S) * max(S.scale(), 1e-3) * L2 * 2)

    def quad(self, S, fn, deg):
        x, w = gauss(min(400, deg + 10))
        return (w @ fn(x)) * (S.dom[1] - S.dom[0]) / 2

    def norm_ref(self, S, p):
        deg = int(S.n * (1.6 if S.kind == 'trig' else 1) * p)
        def g(x):
            y = S.ev(x)
            if np.iscomplexobj(y):
                return (np.abs(np.real(y)) ** p + np.abs(np.imag(y)) ** p).sum(axis=1)
            return (np.abs(y) ** p).sum(axis=1)
        return self.quad(S, g, deg) ** (1. / p)

    def do_norm(self, op, fname='norm'):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=60)
        p = op['p']
        tolf = 1.0
        if p in (1, 3):
            if not self.isreal(S):
                raise Skip('kinks')
            self.nonvanishing(S, 0.1)
        if p == 'inf':
            if not self.isreal(S):
                raise Skip('complex')
            y = S.ev(np.cos(np.linspace(-np.pi, 0, 6001)) if S.kind == 'cheb' else np.linspace(-1, 1, 6001))
            want = float(np.max(np.abs(y)))
            tolf, pp = 0, np.inf
            tol = 1e-5 * want * max(1, (S.n / 20) ** 2) + 1e-13
        else:
            pp = p
            want = self.norm_ref(S, p)
            tol = max(self.rtol(S), 1e-8) * max(want, S.scale()) * 10 + 1e-7 * (S.kind == 'trig')
            if want < 1e-3 * S.scale() or S.scale() < 1e-3:
                raise Skip('cancellation')
        if fname == 'norm2':
            if p == 'inf':
                raise Skip('')
            want = want ** p
            tol = tol * p * max(1, want)
            return self.num('norm2', i, lambda o: self.F.norm2(o[0], p=pp), np.array(want), tol)
        return self.num('norm', i, (lambda o: self.F.norm(o[0], p=pp)) if op['j'] % 2 else (lambda o: o[0].norm(p=pp)), np.array(want), tol)

    def do_norm2(self, op):
        return self.do_norm(op, 'norm2')

    def do_wkp(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=40)
        if S.scale() < 1e-3:
            raise Skip('tiny')
        k = op['k']
        L = S.dom[1] - S.dom[0]
        x, w = gauss(int(S.n * 3.2) + 12)
        tot, sc = 0.0, 0.0
        for d in range(k + 1):
            y = np.abs((S.der(d, x) if d else S.ev(x)) * (2 / L) ** d) ** 2
            tot += (w @ y).sum() * L / 2
        if op.get('h2'):
            return self.num('h2norm', i, lambda o: self.F.h2norm(o[0]), np.array(np.sqrt(tot)), 1e-7 * (np.sqrt(tot) + self.dertol(S, 2) * (2 / L) ** 2 * (1e-2 if S.kind == 'cheb' else 1)) + 1e-9)
        return self.num('wkpnorm', i, (lambda o: self.F.wkpnorm(o[0], p=2, k=k)) if k != 1 else (lambda o: self.F.h1norm(o[0])),
                        np.array(np.sqrt(tot)), 1e-7 * (np.sqrt(tot) + self.dertol(S, k) * (2 / L) ** k * (1e-2 if S.kind == 'cheb' else 1)) + 1e-9)

    def do_h2norm(self, op):
        return self.do_wkp(dict(op, k=2, h2=True))

    def do_wnorm(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        self.small(S, n=60)
        if S.scale() < 1e-3:
            raise Skip('tiny')
        want = ((S.c ** 2).sum() + (S.c[0] ** 2).sum()) * np.pi / 2 * (S.dom[1] - S.dom[0]) / 2
        sq = op['j'] % 2
        return self.num('wnorm', i, (lambda o: self.F.norm2(o[0], weighted=True)) if sq else (lambda o: self.F.norm(o[0], weighted=True)),
                        np.array(want if sq else np.sqrt(want)), 1e-8 * max(want, np.sqrt(want), S.scale()))

    def do_sturmalt(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=40)
        if not self.isreal(S) or S.m > 1 or S.scale() < 1e-2 or S.n < 2:
            raise Skip('')
        x, w = gauss(S.n * 2 + 12)
        L = S.dom[1] - S.dom[0]
        a = float(np.real(S.ev(np.array([-1.0]))).ravel()[0])
        nrm = self.norm_ref(S, 2)
        if abs(a) < 1e-3 * S.scale() or nrm < 1e-2 * S.scale():
            raise Skip('sign unclear')
        if np.sqrt(np.sum(w[:, None] * np.abs(S.der(1, x)) ** 2) * 2 / L) < 1e-4:
            raise Skip('nearly constant')
        return self.num('sturm_norm_alt', i, lambda o: self.F.sturm_norm_alt(o[0]), np.array(np.sign(a) * nrm), 1e-6 * max(nrm, S.scale()))

    def do_h1norm(self, op):
        return self.do_wkp(dict(op, k=1))

    def do_sturm(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=40)
        if not self.isreal(S) or S.m > 1 or S.scale() < 1e-2 or S.n < 2:
            raise Skip('')
        L = S.dom[1] - S.dom[0]
        d0 = float(np.real(S.der(1, np.array([-1.0]))).ravel()[0]) * 2 / L
        if abs(d0) < 1e-3 * S.scale():
            raise Skip('sign unclear')
        if S.kind == 'cheb' and abs(d0) < 1e-8 * self.dertol(S, 1):
            raise Skip('sign unclear')
        nrm = self.norm_ref(S, 2)
        if nrm < 1e-2 * S.scale():
            raise Skip('')
        return self.num('sturm_norm', i, lambda o: self.F.sturm_norm(o[0]), np.array(np.sign(d0) * nrm), 1e-6 * max(nrm, S.scale()))

    def do_normh(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=60)
        if not self.isreal(S):
            raise Skip('')
        nrm = self.norm_ref(S, 2)
        if nrm < 1e-2 * S.scale() or S.scale() < 1e-3:
            raise Skip('')
        return self.num('normh', i, lambda o: self.F.normh(o[0]), np.array(nrm), 1e-6 * max(nrm, S.scale()))

    def inner_ref(self, A, B):
        x, w = gauss(min(500, int((A.n + B.n) * (1.7 if A.kind == 'trig' else 0.6)) + 12))
        a, b = A.ev(x), B.ev(x)
        return ((a.T * w) @ np.conj(b)) * (A.dom[1] - A.dom[0]) / 2

    def do_inner(self, op):
        i = self.pickslot(op['i'])
        j = self.pickslot(op['j'], self.same_group(i))
        A, B = self.snap(i), self.snap(j)
        self.small(A, B)
        G = self.inner_ref(A, B)
        return self.num('inner', [i, j], lambda o: np.inner(o[0], o[1]), G.squeeze(), max(self.rtol(A), 1e-9) * (A.scale() * B.scale() + 1e-9) * 10)

    def do_dot(self, op):
        i, j, A, B = self.pair(op)
        self.small(A, B)
        G = self.inner_ref(A, B)
        return self.num('dot', [i, j], lambda o: np.dot(o[0], o[1]), np.array(np.trace(G)), max(self.rtol(A), 1e-9) * (A.scale() * B.scale() + 1e-9) * 10)

    def do_innerw(self, op):
        i, j, A, B = self.pair(op)
        if A.kind == 'trig':
            want = self.inner_ref(A, B).squeeze()
        else:
            n = min(A.n, B.n)
            want = (A.c[:n] * B.c[:n]).sum(axis=0) + A.c[0] * B.c[0]
            want = (want * np.pi / 2 * (A.dom[1] - A.dom[0]) / 2).squeeze()
        self.small(A, B)
        return self.num('innerw', [i, j], lambda o: self.F.innerw(o[0], o[1]), want, max(self.rtol(A), 1e-9) * (A.scale() * B.scale() + 1e-9) * 100)

    def do_roots(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig and self.slots[k].m == 1)
        S = self.snap(i)
        self.small(S, n=60)
        if S.n < 2 or S.scale() < 1e-3:
            raise Skip('constant')
        y = S.ev(DENSE)[:, 0]
        a, b = S.dom
        def chk(r):
            try:
                r = np.atleast_1d(np.asarray(r, dtype=float)).ravel()
            except Exception as e:
                return [('value', 'roots returned %r' % (r,))]
            if r.size and (r.min() < a - 1e-6 * (b - a) or r.max() > b + 1e-6 * (b - a)):
                return [('value', 'root outside the interval')]
            z = np.clip((2 * r - a - b) / (b - a), -1, 1)
            if r.size:
                f = np.abs(S.ev(z)[:, 0])
                d = np.abs(S.der(1, z)[:, 0])
                if np.any(f > 1e-6 * S.scale() + 1e-6 * d):
                    return [('value', 'returned point is no root: |f| = %.3g' % f.max())]
            h = DENSE[1] - DENSE[0]
            for t in np.nonzero((y[:-1] * y[1:] < 0) & (np.minimum(abs(y[:-1]), abs(y[1:])) > 1e-6 * S.scale()))[0]:
                if not np.any((z > DENSE[t] - 1e-6) & (z < DENSE[t + 1] + 1e-6)):
                    return [('value', 'missed a root in [%.4f, %.4f]' % (DENSE[t], DENSE[t + 1]))]
            return []
        return Task('roots', [i], lambda o: self.F.roots(o[0]), store=False, expect=chk)

    def do_minandmax(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        self.small(S, n=48)
        if not self.isreal(S):
            raise Skip('complex')
        y = S.ev(np.cos(np.linspace(-np.pi, 0, 6001)) if S.kind == 'cheb' else np.linspace(-1, 1, 6001))
        tol = 1e-5 * S.scale() * max(1, (S.n / 20.) ** 2) + 1e-14
        lo, hi = y.min(axis=0), y.max(axis=0)
        if np.any(hi - lo < 1e-6 * S.scale()):
            raise Skip('constant')
        def chk(res):
            try:
                v = np.asarray(res[0], float).reshape(2, -1)
                ps = np.asarray(res[1], float).reshape(2, -1)
            except Exception as e:
                return [('value', 'minandmax returned %r' % (e,))]
            p = close(v, np.stack([lo, hi]), tol, 'extrema')
            if p:
                return [('value', p)]
            if np.any(v[0] > lo + 1e-7 * S.scale() + 1e-9) or np.any(v[1] < hi - 1e-7 * S.scale() - 1e-9):
                return [('value', 'extremum beaten by a sample')]
            z = (2 * ps - S.dom[0] - S.dom[1]) / (S.dom[1] - S.dom[0])
            if np.any(np.abs(z) > 1 + 1e-9):
                return [('value', 'extremum outside the interval')]
            at = np.stack([np.diag(S.ev(np.clip(z[0], -1, 1))[:S.m, :S.m]), np.diag(S.ev(np.clip(z[1], -1, 1))[:S.m, :S.m])])
            p = close(at, v, 1e-6 * max(S.scale(), 1e-3), 'f(position)')
            return [('value', p)] if p else []
        return Task('minandmax', [i], lambda o: self.F.minandmax(o[0]), store=False, expect=chk)

    def do_values(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        n = S.n
        z = (-1 + 2 * np.arange(n) / n) if S.kind == 'trig' else (-np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1))
        want = np.hstack([trig_eval(S.c, z) if S.kind == 'trig' else cheb_eval(S.c, z), self.xgrid(S, z)[:, None]])
        tol = max(self.rtol(S), 1e-9) * max(S.scale(), 1) * max(1, n / 30)
        def thunk(o):
            return np.hstack([np.asarray(o[0].values).reshape(n, -1), np.asarray(o[0].x).reshape(n, 1)])
        tol = max(tol, 1e-9 * max(abs(S.dom[0]), abs(S.dom[1])))
        return self.num('values', i, thunk, want, tol)

    def do_props(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        want = np.array([S.n, S.m, S.n, S.n * S.m, S.kind == 'trig', 2], float)
        def thunk(o):
            f = o[0]
            f.isfortran(), f.hscale, f.type, f.size
            fl = f.flatten()
            return np.array([f.shape[0], f.shape[1], len(f), fl.size, float(f.istrig), f.ndim], float)
        if S.kind == 'cheb' and hasattr(self.slots[i].onefun, 'chebpts') and op.get('j', 0) % 2:
            # points of its kind of another number
            k = 2 + op.get('j', 0) % 37
            base, want = thunk, np.concatenate([want, -np.cos(np.pi * np.arange(k) / (k - 1))])
            thunk = lambda o: np.concatenate([base(o), np.asarray(o[0].onefun.chebpts(k)).ravel()])
        return self.num('props', i, thunk, want, 1e-13)

    def do_happy(self, op):
        i = self.pickslot(op['i'])
        return Task('vscale', [i], lambda o: (o[0].vscale, np.argmax(o[0])), store=False, expect=lambda r: [])

    def do_eq(self, op):
        i = self.pickslot(op['i'])
        j = self.pickslot(op['j'], self.same_group(i))
        A, B = self.snap(i), self.snap(j)
        want = A.c.shape == B.c.shape and np.array_equal(A.c, B.c) and (A.v is None or np.array_equal(A.v, B.v))
        if A.c.shape != B.c.shape:
            raise Skip('shapes')
        return Task('eq', [i, j], lambda o: bool(o[0] == o[1]), store=False,
                    expect=lambda r: [] if r == want else [('value', '== gave %s for %s functions' % (r, 'equal' if want else 'different'))])

    def do_text(self, op):
        i = self.pickslot(op['i'])
        return Task('text', [i], lambda o: (str(o[0]), repr(o[0])), store=False, expect=lambda r: [])

    def do_ends(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        want = S.ev(np.array([-1.0, 1.0]))
        return self.num('ends', i, lambda o: np.stack([np.ravel(o[0].lval()), np.ravel(o[0].rval())]), want, 1e-9 * max(S.scale(), 1e-3) * max(1, S.n / 10))

    def do_prolong_coeffs(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        n = self.target_len(S, op['d'])
        ev = trig_eval if S.kind == 'trig' else cheb_eval
        def chk(r):
            r = np.asarray(r)
            if r.shape != (n, S.m):
                return [('value', 'prolong_coeffs(%d) has shape %s' % (n, r.shape))]
            p = close(ev(r, PROBE), ev(S.c, PROBE), 1e-9 * max(S.scale(), 1e-3), 'prolonged coefficients')
            return [('value', p)] if p else []
        return Task('prolong_coeffs', [i], lambda o: o[0].prolong_coeffs(n), store=False, expect=chk)

    def do_iterate(self, op):
        i = self.pickslot(op['i'])
        S = self.snap(i)
        z = np.array([0.3])
        x = self.xgrid(S, z)
        want = S.ev((2 * x - S.dom[0] - S.dom[1]) / (S.dom[1] - S.dom[0])).ravel()
        return self.num('iterate', i, lambda o: np.array([np.asarray(c(x)).ravel()[0] for c in o[0]]), want,
                        self.rtol(S) * max(S.scale(), 1e-3) * max(1, S.n / 30))

    def do_restrict(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        a, b = op['a'], op['b']
        if b - a < 0.05:
            raise Skip('narrow')
        want = S.ev(a + (b - a) * (PROBE + 1) / 2)
        return self.num('restrict', i, lambda o: np.asarray(o[0].restrict(np.array([a, b])).feval(PROBE)).reshape(len(PROBE), -1), want,
                        1e-8 * max(S.scale(), 1e-3) * max(1, S.n / 20))

    # -- pokes and operations that must be refused
    def do_poke(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        a, how = op['a'], op['how']
        def thunk(o):
            f = o[0]
            if how == 'scale':
                f.coeffs[...] *= a
            elif how == 'entry':
                f.coeffs[0, 0] += a
            else:
                f.coeffs[:, 0] = a / (1 + np.arange(f.n))
            return f
        c = S.c.copy()
        if how == 'scale':
            c *= a
        elif how == 'entry':
            c[0, 0] += a
        else:
            c[:, 0] = a / (1 + np.arange(S.n))
        return Task('poke', [i], thunk, target=0, expect=self.expect_fun('cheb', S.dom, S.m, lambda z: cheb_eval(c, z), S.scale() + abs(a) * 4, 1e-8))

    def do_bad_domain(self, op):
        i = self.pickslot(op['i'])
        f = self.slots[i]
        j = self.pickslot(op['j'], lambda k: self.slots[k].istrig == f.istrig and self.slots[k].m == f.m and
                          tuple(map(float, self.slots[k].domain)) != tuple(map(float, f.domain)))
        fn = [lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a - b, np.inner, np.dot, self._iadd][op['j'] % 6]
        return Task('bad_domain', [i, j], lambda o: fn(o[0], o[1]), must_fail=True, store=False)

    @staticmethod
    def _iadd(a, b):
        a += b
        return a

    def do_bad_index(self, op):
        i = self.pickslot(op['i'])
        m = self.slots[i].m
        return Task('bad_index', [i], lambda o: o[0][m], must_fail=True, store=False)

    def do_bad_eval(self, op):
        i = self.pickslot(op['i'])
        a, b = [float(x) for x in self.slots[i].domain]
        x = np.array([a, b + 0.1 * (b - a)])
        return Task('bad_eval', [i], lambda o: o[0](x), must_fail=True, store=False, arrays=[x])

    def do_bad_shape(self, op):
        i = self.pickslot(op['i'], lambda k: not self.slots[k].istrig)
        S = self.snap(i)
        v = np.ones((S.n + 1, S.m + 2))
        return Task('bad_shape', [i], lambda o: o[0] * v, must_fail=True, store=False, arrays=[v])

    def do_bad_callback(self, op):
        i = self.pickslot(op['i'], lambda k: self.slots[k].m == 1)
        S = self.snap(i)
        self.small(S, n=40)
        cnt = [0]
        def cb(y):
            cnt[0] += 1
            if cnt[0] >= 1:
                raise ArithmeticError('callback')
            return np.abs(y - 0.1)
        return Task('bad_callback', [i], lambda o: self.F.compose(o[0], cb), must_fail=ArithmeticError, store=False)
