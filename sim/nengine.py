"""P10: the Newton-type solvers against simulated nonlinear systems whose linear solves, residuals and callbacks fail on schedule."""
import math
import os
import pickle
import struct
import warnings

import numpy as np

from .core import Engine
from .fengine import EXC
from .hooks import monitor, StepLimit
from .model import Snap

LIMIT = 1500000
MAXCALLS = 30000
FAMS = ['affine', 'gentle', 'dyadic', 'rosen', 'atan', 'square', 'double', 'expo', 'coupled', 'noroot', 'flat', 'island', 'cubic']
SOLVABLE = ['affine', 'gentle', 'dyadic']
SOLVERS = ['standard', 'nleq', 'nleq', 'nleq', 'qnerr', 'giant', 'giant']
TOLS = [1e-3, 1e-6, 1e-8, 1e-10, 1e-12]


class SystemError_(Exception):
    """raised by the simulated system"""


class Problem:
    """a smooth system of equations with its derivative"""
    def __init__(self, fam, n, s):
        r = np.random.RandomState(s % (1 << 31))
        self.fam, self.n = fam, n
        Q = np.linalg.qr(r.randn(n, n))[0]
        self.A = Q @ np.diag(r.uniform(.5, 3, n)) @ Q.T + .3 * (lambda K: K - K.T)(r.randn(n, n)) / n
        self.B = r.randn(n, n) / math.sqrt(n)
        self.c = r.randn(n)
        self.root = r.uniform(-2, 2, n)
        if fam == 'dyadic':          # everything is exact in floating point
            self.A = np.diag(2.0 ** r.randint(-1, 2, n))
            self.root = r.randint(-8, 9, n) / 4

    def F(self, x):
        A, B, c, f, z = self.A, self.B, self.c, self.fam, self.root
        with np.errstate(all='ignore'):
            if f in ('affine', 'dyadic'):
                return A @ (x - z)
            if f == 'gentle':
                return A @ (x - z) + .05 * (np.sin(B @ x) - np.sin(B @ z))
            if f == 'rosen':
                g = A @ (x - z)
                g[1:] += 5 * (x[1:] - z[1:] - (x[:-1] ** 2 - z[:-1] ** 2))
                return g
            if f == 'atan':
                return np.arctan(3 * (x - z)) + .1 * np.sin(B @ (x - z))
            if f == 'square':
                return x ** 2 - z ** 2 + .1 * np.roll(x - z, 1)
            if f == 'double':
                return (x - z) ** 2
            if f == 'expo':
                return np.exp(np.clip(x, -700, 700)) - np.exp(z) + .1 * (A @ (x - z))
            if f == 'coupled':
                return x * np.roll(x, 1) - z * np.roll(z, 1) + (x - z)
            if f == 'noroot':
                return x ** 2 + 1 + .1 * np.sin(np.roll(x, 1))
            if f == 'flat':
                return np.exp(-np.clip(x, -700, 700)) + .01 * np.roll(np.exp(-np.clip(x, -700, 700)), 1)
            if f == 'island':            # only defined near the solution
                return np.log(4 - (x - z) ** 2) - math.log(4) + .5 * np.sqrt(4 - np.sum((x - z) ** 2)) * (x - z)
            return (x - z) ** 3 + (x - z) - .2 * (np.roll(x, 1) - np.roll(z, 1))

    def J(self, x):
        A, B, c, f, z, n = self.A, self.B, self.c, self.fam, self.root, self.n
        I = np.eye(n)
        R = np.roll(I, 1, axis=0)
        with np.errstate(all='ignore'):
            if f in ('affine', 'dyadic'):
                return A.copy()
            if f == 'gentle':
                return A + .05 * np.cos(B @ x)[:, None] * B
            if f == 'rosen':
                g = A.copy()
                for i in range(1, n):
                    g[i, i] += 5
                    g[i, i - 1] -= 10 * x[i - 1]
                return g
            if f == 'atan':
                return np.diag(3 / (1 + 9 * (x - z) ** 2)) + .1 * np.cos(B @ (x - z))[:, None] * B
            if f == 'square':
                return np.diag(2 * x) + .1 * R
            if f == 'double':
                return np.diag(2 * (x - z))
            if f == 'expo':
                return np.diag(np.exp(np.clip(x, -700, 700))) + .1 * A
            if f == 'coupled':
                return np.diag(np.roll(x, 1)) + np.diag(x) @ R + I
            if f == 'noroot':
                return np.diag(2 * x) + .1 * np.diag(np.cos(np.roll(x, 1))) @ R
            if f == 'flat':
                e = np.exp(-np.clip(x, -700, 700))
                return -np.diag(e) - .01 * R @ np.diag(e)
            if f == 'island':
                d = x - z
                t = np.sqrt(4 - np.sum(d ** 2))
                return np.diag(-2 * d / (4 - d ** 2)) + .5 * (t * I - np.outer(d, d) / t)
            return np.diag(3 * (x - z) ** 2 + 1) - .2 * R


class Mat:
    """a matrix acting by *, as the iterative solver wants it"""
    def __init__(self, M, world, kind):
        self.M, self.w, self.kind = M, world, kind
        self.shape = M.shape

    def __mul__(self, v):
        self.w.hit(self.kind)
        return self.w.mangle(self.kind, self.M @ np.asarray(v, float).ravel())


class World:
    """everything a solver sees: the system, the callback, the inner product - and what goes wrong with them"""
    def __init__(self, op, space, pb, log):
        self.op, self.space, self.pb, self.log = op, space, pb, log
        self.n = dict(make=0, rhs=0, solve=0, callback=0, inner=0, matvec=0, precond=0)
        self.ticks = 0
        self.faults = {}
        self.failed = None           # first reported failure (linear solve) / stop request
        self.stopped = None
        self.after_stop = 0
        self.exc = None
        self.lastJ = None

    def hit(self, kind):
        self.n[kind] += 1
        self.ticks += 1
        if self.ticks > MAXCALLS * (10 if kind in ('inner', 'matvec', 'precond') else 1):
            raise StepLimit('no end: %s calls' % dict(self.n))
        if self.stopped is not None and kind in ('make', 'callback'):
            self.after_stop += 1
        q = self.faults.get(kind)
        if q and self.due(kind, q) and q['what'] == 'raise':
            self.exc = EXC[q['exc']]('from the %s' % kind) if q['exc'] != 'own' else SystemError_(kind)
            self.log.append((kind, 'raise'))
            raise self.exc

    def due(self, kind, q):
        k = self.n[kind]
        return k >= q['at'] if q['sticky'] else k == q['at']

    def mangle(self, kind, v):
        q = self.faults.get(kind)
        if not q or not self.due(kind, q) or q['what'] not in ('nan', 'inf'):
            return v
        self.log.append((kind, q['what']))
        v = np.array(v, float)
        v[q['pos'] % v.size] = np.nan if q['what'] == 'nan' else np.inf
        return v

    # what the solvers call
    def system(self, x, *args, **kwargs):
        self.hit('make')
        y = System(self, self.space.vec(x))
        self.lastJ = y.Jm if np.all(np.isfinite(y.Jm)) else None
        return y

    def inner(self, a, b):
        self.hit('inner')
        return float(np.dot(self.space.vec(a), self.space.vec(b)))

    def callback(self, system, itr, dx, normdx, theta):
        self.hit('callback')
        q = self.faults.get('callback')
        if q and q['what'] == 'stop' and self.due('callback', q):
            self.log.append(('callback', 'stop'))
            self.stopped = self.n['callback']
            return False
        return True


class System:
    def __init__(self, w, x):
        self.w, self.x = w, x.copy()
        self.size = x.size
        self.shape = x.shape
        self.Jm = w.pb.J(x)

    def rhs(self, x):
        w = self.w
        w.hit('rhs')
        return w.mangle('rhs', w.pb.F(w.space.vec(x)))

    def to_vspace(self, c, *args, **kwargs):
        return self.w.space.make(np.array(c, float).ravel())

    def solve(self, b):
        w = self.w
        w.hit('solve')
        q = w.faults.get('solve')
        b = np.array(b, float).ravel()
        ok = True
        with np.errstate(all='ignore'):
            try:
                y = np.linalg.solve(self.Jm, b)
            except np.linalg.LinAlgError:
                y, ok = np.zeros_like(b), False
        if not np.all(np.isfinite(y)) and w.op['honest']:
            ok = False
        if q and w.due('solve', q) and q['what'] in ('zero', 'garbage', 'fnan', 'none'):
            ok = False
            w.log.append(('solve', q['what']))
            y = dict(zero=np.zeros_like(b), garbage=np.full_like(b, 1e-9) * (1 + np.arange(b.size)), fnan=np.full_like(b, np.nan),
                     none=y)[q['what']]
        y = w.mangle('solve', y)
        if not ok and w.failed is None:
            w.failed = w.n['solve']
        return w.space.make(y), (np.bool_(ok) if w.op['npbool'] else ok)

    def matrix(self, precond=True):
        w = self.w
        M = self.Jm.copy()
        with np.errstate(all='ignore'):
            try:
                P = np.linalg.inv(M * (1 + w.op['perr'] * np.cos(np.arange(M.size)).reshape(M.shape)))
            except np.linalg.LinAlgError:
                P = np.full_like(M, np.nan)
        return Mat(M, w, 'matvec'), Mat(P, w, 'precond'), None


class Space:
    """how vectors are represented: plain arrays, or funpy states over Chebyshev coefficients"""
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        if kind != 'array':
            from funpy.vectorspaces import DeflationState
            self.D = DeflationState

    def make(self, c):
        if self.kind == 'array':
            return np.array(c, float)
        return self.D.from_coeffs(np.array(c, float), 1, domain=[-1, 1], type='cheb')

    def vec(self, x):
        if isinstance(x, np.ndarray):
            return np.array(x, float).ravel()
        c = np.array(x.u.coeffs if hasattr(x, 'u') else x.coeffs, float).ravel()
        if c.size < self.n:          # arithmetic may drop coefficients that are zero
            c = np.concatenate([c, np.zeros(self.n - c.size)])
        if c.size != self.n:
            raise ValueError('the state has %d coefficients, the system %d unknowns' % (c.size, self.n))
        return c

    def bytes(self, x):
        if isinstance(x, np.ndarray):
            return x.tobytes()
        return Snap(x.u).key()


def ball(v):
    return float(np.sqrt(np.sum(np.abs(v) ** 2)))


class NewtonEngine(Engine):
    preload = ['funpy.newton', 'funpy.newton.newton_seeker', 'funpy.linalg.gbit', 'funpy.vectorspaces']
    measure = 'distinct (solver, family, variant, vector kind, injected faults, iterations, outcome) situations'
    rule = ('one run is a seeded history of 1-5 nonlinear solves (solver, variant, system, start, tolerance), most with a failure '
            'injected at a chosen residual, linear solve, callback, inner product or source line, each repeated without the failure; '
            'distinct = distinct digests of situations')
    real = ['funpy.newton.newton_standard', 'funpy.newton.nleq_err', 'funpy.newton.qnerr', 'funpy.newton.giant', 'funpy.linalg.gbit', 'funpy.vectorspaces']
    stub = ['nonlinear system, its linear solver and preconditioner (scripted, with known derivative)', 'callback', 'inner product']
    assumptions = ['smooth systems on their domain of definition, at most 8 unknowns', 'the system hands out a new vector at each linear solve']
    quick_runs = 20000
    thorough_runs = 250000
    quick_wall = 60
    must_hit = ['op:' + s for s in set(SOLVERS)] + ['op:gbit', 'fault:tick', 'fault:rhs-nan', 'fault:rhs-raise', 'fault:solve-zero', 'fault:solve-garbage',
                'fault:solve-fnan', 'fault:solve-raise', 'fault:solve-nan', 'fault:callback-stop', 'fault:callback-raise', 'fault:make-raise', 'fault:inner-raise',
                'fault:matvec-nan', 'fault:matvec-raise', 'fault:precond-nan', 'probe:success', 'probe:gave-up', 'probe:ran-out', 'probe:in-quasi-newton',
                'probe:damped', 'probe:state-vectors', 'probe:success-despite-fault', 'probe:must-succeed']

    def __init__(self, prop):
        self.prop = prop

    # ------------------------------------------------------------------------------------------- generation
    def gen(self, rng, idx, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < .12:
                ops.append(dict(op='gbit', n=rng.choice([1, 2, 3, 5, 8]), s=rng.randrange(1 << 30), perr=rng.choice([0, .05, .2]), tol=rng.choice([1e-2, 1e-4, 1e-8]),
                                rho=rng.choice([1e-3, .1]), y0=rng.choice(['none', 'zero', 'random', 'exact']), imax=rng.choice([2, 5, 10]), zero=rng.random() < .15,
                                maxit=rng.choice([1, 3, 20, 2000]), simple=rng.random() < .3, space='array', honest=True, npbool=False))
                continue
            solver = rng.choice(SOLVERS)
            fam = rng.choice(FAMS)
            op = dict(op=solver, fam=fam, n=rng.choice([1, 2, 2, 3, 4, 6, 8]), s=rng.randrange(1 << 30), tol=rng.choice(TOLS),
                      space=rng.choice(['array', 'array', 'array', 'state']), far=rng.choice([0, 0, 1e-9, .01, .3, 1, 1, 3, 10, 100]),
                      honest=rng.random() < .5, npbool=rng.random() < .3, perr=rng.choice([0, .02, .1]), cb=rng.random() < .8)
            if op['space'] == 'state':
                op['n'] = max(2, op['n'])
                if solver == 'giant':        # thousands of inner iterations on states are slow
                    op['fam'], op['far'] = rng.choice(['affine', 'gentle', 'cubic', 'atan']), min(op['far'], 1)
            kw = {}
            if rng.random() < .5:
                kw['miter'] = rng.choice([1, 2, 3, 5, 8, 20, 50, 100])
            if solver in ('nleq', 'giant'):
                kw['nonlin'] = rng.choice(['mildly', 'mildly', 'highly', 'extremely'])
            if solver == 'nleq':
                kw['use_qnerr'] = rng.random() < .75
                kw['restricted'] = rng.random() < .6
                if rng.random() < .2:
                    kw['lam'] = rng.choice([1.0, .5, .01])
                if rng.random() < .2:
                    kw['lambda_min'] = rng.choice([1e-2, 1e-4, 1e-8])
            if solver in ('nleq', 'qnerr') and rng.random() < .5:
                kw['theta_max'] = rng.choice([.1, .5, .9])
            op['kw'] = kw
            if rng.random() < .7:
                kinds = dict(giant=['rhs', 'make', 'callback', 'inner', 'matvec', 'precond', 'tick'], standard=['rhs', 'solve', 'solve', 'make', 'callback', 'inner', 'tick'],
                             nleq=['rhs', 'solve', 'solve', 'solve', 'make', 'callback', 'inner', 'tick'],
                             qnerr=['rhs', 'solve', 'solve', 'solve', 'callback', 'inner', 'tick'])[solver]
                fs = []
                for _ in range(rng.choice([1, 1, 1, 2])):
                    k = rng.choice(kinds)
                    hi = dict(make=8, rhs=20, solve=20, callback=8, inner=120, matvec=60, precond=60, tick=900)[k]
                    q = dict(kind=k, at=max(1, int(math.exp(rng.uniform(0, math.log(hi))))), sticky=rng.random() < .25, pos=rng.randrange(8), exc=rng.choice(list(EXC) + ['own']))
                    q['what'] = rng.choice(dict(make=['raise'], inner=['raise'], tick=['raise'], callback=['stop', 'stop', 'raise'], rhs=['nan', 'nan', 'inf', 'raise'],
                                                solve=['zero', 'zero', 'garbage', 'garbage', 'fnan', 'none', 'nan', 'raise'], matvec=['nan', 'inf', 'raise'],
                                                precond=['nan', 'raise'])[k])
                    if op['space'] == 'state' and solver == 'giant' and q['what'] in ('nan', 'inf'):
                        q['what'] = 'raise'
                    if k == 'tick' and q['exc'] == 'own':
                        q['exc'] = rng.choice(list(EXC))
                    fs.append(q)
                op['faults'] = fs
            ops.append(op)
        return dict(ops=ops)

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            alts = [('n', 2 if op['space'] == 'state' else 1), ('space', 'array'), ('faults', None), ('honest', True), ('npbool', False), ('perr', 0)]
            for k, v in alts:
                if op.get(k) not in (v, None):
                    o2 = [dict(o) for o in plan['ops']]
                    o2[i][k] = v
                    yield dict(plan, ops=o2)
            for j in range(len(op.get('faults') or [])):
                o2 = [dict(o) for o in plan['ops']]
                o2[i]['faults'] = op['faults'][:j] + op['faults'][j + 1:]
                if o2[i]['faults']:
                    yield dict(plan, ops=o2)
                for at in (1, 2, 3, 5):
                    if at < op['faults'][j]['at']:
                        o2 = [dict(o) for o in plan['ops']]
                        o2[i]['faults'] = [dict(x) for x in op['faults']]
                        o2[i]['faults'][j]['at'] = at
                        yield dict(plan, ops=o2)
            for k in list(op.get('kw', {})):
                o2 = [dict(o) for o in plan['ops']]
                o2[i]['kw'] = {a: b for a, b in op['kw'].items() if a != k}
                yield dict(plan, ops=o2)

    # ------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(7)
        from funpy.newton.newton_standard import newton_standard
        from funpy.newton.nleq_err import nleq_err
        from funpy.newton.qnerr import qnerr
        from funpy.newton.giant import giant_gbit
        from funpy.linalg.gbit import gbit
        self.call = dict(standard=newton_standard, nleq=nleq_err, qnerr=qnerr, giant=giant_gbit)
        self.gbit = gbit
        self.rec, self.mon = rec, monitor()
        if not plan['ops']:
            return
        last = self.first(plan['ops'][-1])       # the last solve as the first thing a process does
        for i, op in enumerate(plan['ops']):
            ref = last if i == len(plan['ops']) - 1 else None
            rec.simtime += 1
            if op['op'] == 'gbit':
                self.inner(op, ref)
            else:
                self.solve(op, ref)
            if rec.violations:
                return

    def first(self, op):
        """outcome of the fault-free solve in a forked process that has done nothing else"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = pickle.dumps(self.clean(op))
                os.write(w, struct.pack('<q', len(d)))
                off = 0
                while off < len(d):
                    off += os.write(w, d[off:off + 60000])
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh:
            b = fh.read()
        os.waitpid(pid, 0)
        return pickle.loads(b[8:])

    def clean(self, op):
        if op['op'] == 'gbit':
            return self.gb(op)[0]
        return self.attempt(op, False)[0]

    def start(self, op, pb, sp):
        r = np.random.RandomState((op['s'] + 17) % (1 << 31))
        d = r.randn(op['n'])
        if op['fam'] == 'dyadic':
            return sp.make(pb.root + np.round(op['far'] * d) / 2)
        return sp.make(pb.root + op['far'] * d / ball(d))

    def attempt(self, op, faulty):
        """(summary, world): summary = (status, ...) picklable"""
        mon = self.mon
        pb = Problem(op['fam'], op['n'], op['s'])
        sp = Space(op['space'], op['n'])
        log = []
        w = World(op, sp, pb, log)
        x0 = self.start(op, pb, sp)
        w.x0, w.b0 = x0, sp.bytes(x0)
        tick = None
        if faulty:
            for q in op['faults']:
                if q['kind'] == 'tick':
                    tick = q
                else:
                    w.faults.setdefault(q['kind'], q)
        kw = dict(op['kw'], tol=op['tol'], inner=w.inner)
        if op['cb']:
            kw['callback'] = w.callback
        if op['op'] in ('standard', 'nleq'):
            kw['linear_solver'] = 'lu'
        if op['op'] == 'qnerr':
            kw['verb'] = False
        mon.start(limit=LIMIT, at=tick['at'] if tick else None, exc=EXC[tick['exc']]('injected') if tick else None)
        try:
            out = self.call[op['op']](w.system, x0, **kw)
            mon.stop()
            if len(out) != (5 if op['op'] == 'giant' else 6):
                return ('shape', len(out)), w
            x, ok, k = out[0], bool(out[1]), int(out[2])
            nd = float(out[3]) if op['op'] != 'giant' else 0.0
            return ('ok', ok, k, struct.pack('<d', nd), sp.vec(x).tobytes()), w
        except StepLimit as e:
            return ('stuck', str(e)), w
        except BaseException as e:
            mon.stop()
            if tick and mon.fired is not None and e is not w.exc:
                return ('tick',), w
            return ('raise', type(e).__name__, str(e), e is w.exc), w
        finally:
            mon.stop()

    def solve(self, op, ref):
        rec = self.rec
        rec.count('op:' + op['op'])
        if op['space'] == 'state':
            rec.count('probe:state-vectors')
        if op.get('faults'):
            s, w = self.attempt(op, True)
            self.judge(op, s, w, True)
            if rec.violations:
                return
        s, w = self.attempt(op, False)
        self.judge(op, s, w, False)
        if rec.violations:
            return
        if ref is None:
            return
        rec.count('check:first-attempt')
        if s != ref:
            return rec.violate('history', op['op'], 'the solve gives %s, as the first thing in a process %s' % (self.text(s), self.text(ref)))

    def text(self, s):
        if s[0] == 'ok':
            return 'success=%s after %d iterations at %s' % (s[1], s[2], np.frombuffer(s[4])[:4])
        return str(s)

    def judge(self, op, s, w, faulty):
        rec = self.rec
        V = lambda oracle, msg: rec.violate(oracle, op['op'], '%s [%s n=%d start %g tol %g %s, %s%s]' % (
            msg, op['fam'], op['n'], op['far'], op['tol'], op['kw'], op['space'], ', faults %s' % [(f['kind'], f['what'], f['at'], f['sticky']) for f in op['faults']] if faulty else ''))
        for ev in set(w.log):
            rec.count('fault:%s-%s' % ev)
        rec.event(op['op'], op['fam'], s[0], s[1:3] if s[0] == 'ok' else None, len(w.log))
        rec.state((op['op'], op['fam'], tuple(sorted((k, str(v)) for k, v in op['kw'].items())), op['space'], tuple(sorted(set(w.log))), s[0], s[1:3] if s[0] == 'ok' else None))
        if s[0] == 'stuck':
            return V('no-progress', s[1])
        rec.count('check:guess')
        if w.space.bytes(w.x0) != w.b0:
            return V('guess', "the caller's starting point changed")
        if s[0] == 'shape':
            return V('report', '%d values returned' % s[1])
        if s[0] == 'tick':
            rec.count('fault:tick')
            return
        if s[0] == 'raise':
            rec.count('check:exception')
            if w.exc is None:
                if self.tolerable(op, s, w):
                    return
                return V('exception', 'the solver raised %s: %s' % (s[1], s[2]))
            if not s[3]:
                return V('exception', 'the %s raised %s, the caller got %s: %s' % (w.exc, type(w.exc).__name__, s[1], s[2]))
            return
        if w.exc is not None:
            return V('exception', 'the exception "%s" did not reach the caller' % w.exc)
        _, ok, k, nd, xb = s
        nd = struct.unpack('<d', nd)[0]
        x = np.frombuffer(xb)
        cap = self.cap(op)
        rec.count('check:iterations')
        if k > cap:
            return V('iterations', '%d iterations, limit %d' % (k, cap))
        if w.n['make'] > cap + 1:
            return V('iterations', '%d linearisations, limit %d' % (w.n['make'], cap))
        if w.stopped is not None:
            rec.count('check:stop')
            if w.after_stop:
                return V('stop', 'went on after the callback asked to stop (%d more calls)' % w.after_stop)
        if op['op'] == 'nleq' and w.n['callback'] > w.n['make']:
            rec.count('probe:in-quasi-newton')
        if w.n['solve'] > 2 * w.n['make'] + 1:
            rec.count('probe:damped')
        if ok:
            rec.count('probe:success')
            if w.log:
                rec.count('probe:success-despite-fault')
            rec.count('check:root')
            F = w.pb.F(x)
            J = w.pb.J(x)
            JJ = np.linalg.norm(J, 2)
            if w.lastJ is not None:      # corrections are measured with the derivative where it was last computed
                JJ = max(JJ, np.linalg.norm(w.lastJ, 2))
            if not np.all(np.isfinite(F)):
                return V('root', 'success at a point where the residual is not finite: %s' % x[:4])
            lim = (10 if op['op'] == 'qnerr' else 3) * max(1.0, JJ) * op['tol'] + 1e-11 * (1 + float(np.max(np.abs(J)))) * (1 + ball(x))
            if os.environ.get('SIM_CAL'):
                rec.count('cal:%s:%d' % (op['op'], int(math.log10(max(ball(F) / lim, 1e-9)))))
            if ball(F) > lim:
                return V('root', 'success where the residual is %.3g' % ball(F))
            if op['op'] in ('standard', 'qnerr') and not nd <= op['tol'] * (1 + 1e-9):
                return V('report', 'success with a last correction of %.3g' % nd)
        else:
            rec.count('probe:gave-up' if k < cap - 2 else 'probe:ran-out')
            if not faulty and self.must(op, w):
                return V('convergence', 'no success on a %s system started %g from the root (%d iterations)' % (op['fam'], op['far'], k))
        if not faulty and self.must(op, w):
            rec.count('probe:must-succeed')

    def tolerable(self, op, s, w):
        return False

    def cap(self, op):
        d = dict(standard=50, qnerr=25, nleq=dict(mildly=50, highly=75, extremely=75)[op['kw'].get('nonlin', 'mildly')], giant=50)[op['op']]
        m = op['kw'].get('miter', d)
        return m + 2

    def must(self, op, w):
        """the library has to solve this one"""
        return (op['fam'] in SOLVABLE and op['far'] <= 10 and op['kw'].get('theta_max', .5) >= .5 and op['kw'].get('miter', 99) >= 50 and op['kw'].get('nonlin', 'mildly') == 'mildly'
                and op['kw'].get('lam', 1.0) == 1.0 and op['tol'] >= 1e-10)

    # ------------------------------------------------------------------------------------------- gbit
    def gb(self, op):
        pb = Problem('affine', op['n'], op['s'])
        r = np.random.RandomState((op['s'] + 5) % (1 << 31))
        b = np.zeros(op['n']) if op['zero'] else r.randn(op['n'])
        exact = np.linalg.solve(pb.A, b)
        P = np.linalg.inv(pb.A * (1 + op['perr'] * np.cos(np.arange(pb.A.size)).reshape(pb.A.shape)))
        y0 = dict(none=None, zero=np.zeros(op['n']), random=exact + r.randn(op['n']), exact=exact.copy())[op['y0']]
        w = World(op, Space('array', op['n']), pb, [])
        b0, y00 = b.tobytes(), None if y0 is None else y0.tobytes()
        self.mon.start(limit=LIMIT)
        try:
            y, ok, it, nm, npr = self.gbit(Mat(pb.A, w, 'matvec'), Mat(P, w, 'precond'), b, y=y0, tol=op['tol'], rho=op['rho'], i_max=op['imax'],
                                           max_iter=op['maxit'], giant_simple=op['simple'], inner=w.inner)
        except StepLimit as e:
            return ('stuck', str(e)), None
        except BaseException as e:
            return ('raise', type(e).__name__, str(e)), None
        finally:
            self.mon.stop()
        return (('ok', bool(ok), int(it), np.asarray(y).tobytes(), int(nm), int(npr)),
                (pb.A, P, b, exact, w, b.tobytes() == b0 and (y0 is None or y0.tobytes() == y00)))

    def inner(self, op, ref):
        rec = self.rec
        rec.count('op:gbit')
        s, info = self.gb(op)
        V = lambda oracle, msg: rec.violate(oracle, 'gbit', msg)
        rec.event('gbit', s[0], s[1:3] if s[0] == 'ok' else None)
        rec.state(('gbit', op['n'], op['perr'], op['tol'], op['y0'], op['imax'], op['maxit'], s[0], s[1:3] if s[0] == 'ok' else None))
        if ref is not None and s != ref:
            return V('history', 'the same linear solve gives another answer than as the first thing in a process')
        if s[0] == 'stuck':
            return V('no-progress', s[1])
        if s[0] == 'raise':
            return V('exception', 'gbit raised %s: %s' % s[1:3])
        A, P, b, exact, w, kept = info
        if not kept:
            return V('guess', 'right-hand side or starting vector changed')
        if s[2] > op['maxit'] + 1:
            return V('iterations', '%d iterations, limit %d' % (s[2], op['maxit']))
        if s[4] != w.n['matvec'] or s[5] != w.n['precond']:
            return V('report', 'reported %d products and %d preconditioner calls, made %d and %d' % (s[4], s[5], w.n['matvec'], w.n['precond']))
        y = np.frombuffer(s[3])
        if s[1]:
            rec.count('check:linear')
            e = ball(P @ (b - A @ y))
            ref0 = ball(y)
            if op['simple']:
                lim = 30 * op['rho'] * op['tol'] * (ball(y) + ball(y - exact) + 4)
            else:
                lim = 30 * op['rho'] * op['tol'] * ref0
            if e > lim + 1e-12 * (1 + ref0):
                return V('linear', 'success with a preconditioned residual of %.3g (solution of size %.3g, tolerance %g, rho %g)' % (e, ref0, op['tol'], op['rho']))
        elif op['maxit'] >= 2000 and op['perr'] <= .05 and op['y0'] != 'exact' and not op['simple'] and not op['zero']:
            return V('convergence', 'gbit failed with a good preconditioner')
