"""P15: deflated search for several solutions - the real seeker, deflated systems and Newton methods, on simulated operators whose
solutions are known and on real operators with several solutions, with failing evaluations and interruptions."""
import contextlib
import copy
import io
import math
import warnings

import numpy as np
import scipy.sparse as sps

from .core import Engine
from .fengine import EXC
from .fworld import DOMS, series
from .hooks import monitor, StepLimit
from .model import Snap, PROBE, gauss, modes
from .states import state_picture, picture
from . import oworld as O

LIMIT = 8000000
PI = math.pi

REAL = [
    O.Prob('forced', ['diff(u, x, 2) + 2*u - u**3 + b*cos(x)'], lambda x, D, I, p: [D[2][0] + 2 * D[0][0] - D[0][0] ** 3 + p['b'] * np.cos(x)],
           dom=(-PI, PI), pars=dict(b=(.2, .5)), trig=True),
    O.Prob('forced2', ['diff(u, x, 2) + u - b*u**3 + 0.3*sin(x) + 0.1'],
           lambda x, D, I, p: [D[2][0] + D[0][0] - p['b'] * D[0][0] ** 3 + .3 * np.sin(x) + .1], dom=(-PI, PI), pars=dict(b=(.5, .9)), trig=True),
    O.Prob('tpair', ['diff(u, x, 2) + u - u**3 + 0.2*v + 0.2*cos(x)', 'diff(v, x, 2) - v + b*u**2'],
           lambda x, D, I, p: [D[2][0] + D[0][0] - D[0][0] ** 3 + .2 * D[0][1] + .2 * np.cos(x), D[2][1] - D[0][1] + p['b'] * D[0][0] ** 2],
           dom=(-PI, PI), pars=dict(b=(.3, .6)), trig=True),
    O.Prob('bratu', ['diff(u, x, 2) + b*exp(u)'], lambda x, D, I, p: [D[2][0] + p['b'] * np.exp(D[0][0])],
           ['u(-1)', 'u(1)'], [(0, 0, -1, 0), (0, 0, 1, 0)], pars=dict(b=(.3, .7))),
    O.Prob('chafee', ['diff(u, x, 2) + b*(u - u**3) + 0.2*x'], lambda x, D, I, p: [D[2][0] + p['b'] * (D[0][0] - D[0][0] ** 3) + .2 * x],
           ['u(-1)', 'u(1)'], [(0, 0, -1, 0), (0, 0, 1, 0)], pars=dict(b=(4, 7))),
    O.Prob('cubic', ['diff(u, x, 2) + b*u**3 - u + 1'], lambda x, D, I, p: [D[2][0] + p['b'] * D[0][0] ** 3 - D[0][0] + 1],
           ['u(-1)', 'u(1)'], [(0, 0, -1, 0), (0, 0, 1, 0)], pars=dict(b=(.4, .8))),
    O.Prob('neu', ['diff(u, x, 2) + b*(u - u**3) + 0.1*cos(x)'], lambda x, D, I, p: [D[2][0] + p['b'] * (D[0][0] - D[0][0] ** 3) + .1 * np.cos(x)],
           ['np.diff(u)(-1)', 'np.diff(u)(1)'], [(0, 1, -1, 0), (0, 1, 1, 0)], pars=dict(b=(1.5, 2.2))),
]
BYNAME = {p.name: p for p in REAL}


class OperatorError(Exception):
    """raised by the simulated operator"""


def fit(c, n, trig):
    """coefficients at another length"""
    c = np.asarray(c)
    if c.shape[0] == n:
        return c.copy()
    r = np.zeros((n, c.shape[1]), c.dtype)
    if trig:
        k = {int(q): i for i, q in enumerate(modes(c.shape[0]))}
        for i, q in enumerate(modes(n)):
            if int(q) in k:
                r[i] = c[k[int(q)]]
    else:
        q = min(n, c.shape[0])
        r[:q] = c[:q]
    return r


def inner1(A, B):
    """H1 inner product of real functions, by quadrature"""
    if A.kind == 'trig':
        n = 2 * (A.n + B.n) + 9
        z, w = -1 + 2.0 * np.arange(n) / n, np.full(n, 2.0 / n)
    else:
        z, w = gauss((A.n + B.n) // 2 + 2)
    h = (A.dom[1] - A.dom[0]) / 2
    return float(np.sum(w[:, None] * np.real(A.ev(z) * np.conj(B.ev(z)))) * h + np.sum(w[:, None] * np.real(A.der(1, z) * np.conj(B.der(1, z)))) / h)


class Pic:
    """a function given by coefficients"""
    def __init__(self, c, dom, trig):
        self.kind, self.c, self.dom, self.n, self.m = 'trig' if trig else 'cheb', np.asarray(c), tuple(dom), len(c), np.asarray(c).shape[1]
        self.real = np.ones(self.m, bool)

    ev, der = Snap.ev, Snap.der


class Model:
    """a system of equations for coefficients whose solutions are known"""
    def __init__(self, cfg, s):
        r = np.random.RandomState(s % (1 << 31))
        self.trig, self.m, self.n, self.dom = cfg['basis'] == 'trig', cfg['m'], cfg['n'], tuple(cfg['dom'])
        n, m = self.n, self.m
        self.i0 = n // 2 if self.trig else 0
        cut = lambda c: fit(c, n, self.trig)
        kind = cfg['basis']
        self.base = cut(series(9, m, r.randint(1 << 30), kind, False, .5, scale=.7))
        self.slots = [(self.i0, j) for j in range(min(m, cfg['slots']))]
        self.g = [cut(series(9, m, r.randint(1 << 30), kind, False, .5, scale=.4)) for _ in self.slots]
        for g in self.g:
            for q in self.slots:
                g[q] = 0
        L = r.uniform(.5, 2, (n, m))
        self.L = .5 * (L + L[::-1]) if self.trig else L
        self.roots1 = []
        for _ in self.slots:
            gaps = r.uniform(.8, 2, cfg['nroots'] - 1)
            self.roots1.append(np.concatenate(([0.0], np.cumsum(gaps))) - r.uniform(0, 2))
        self.kappa = r.uniform(.3, 1.5)
        self.roots = []
        for ts in np.stack(np.meshgrid(*self.roots1, indexing='ij'), -1).reshape(-1, len(self.slots)):
            self.roots.append(self.at(ts))

    def at(self, ts):
        c = self.base.copy()
        for q, g, t in zip(self.slots, self.g, ts):
            c = c + g * t
        for q, t in zip(self.slots, ts):
            c[q] = self.base[q] + t
        return c

    def ts(self, c):
        return [c[q] - self.base[q] for q in self.slots]

    def F(self, c):
        ts = self.ts(c)
        t0 = self.base.astype(c.dtype) + sum(g * t for g, t in zip(self.g, ts))
        f = self.L * (c - t0)
        for q, t, rs in zip(self.slots, ts, self.roots1):
            f[q] = self.kappa * np.prod([t - a for a in rs])
        return f

    def J(self, c):
        n, m = self.n, self.m
        at = lambda q: q[1] * n + q[0]
        M = np.diag(self.L.flatten(order='F')).astype(c.dtype)
        for q, g, t, rs in zip(self.slots, self.g, self.ts(c), self.roots1):
            M[:, at(q)] = -(self.L * g).flatten(order='F')
        for q in self.slots:
            M[at(q), :] = 0
        for q, t, rs in zip(self.slots, self.ts(c), self.roots1):
            M[at(q), at(q)] = self.kappa * sum(np.prod([t - a for j, a in enumerate(rs) if j != i]) for i in range(len(rs)))
        return M


class SimOp:
    """what the seeker needs of a differential operator"""
    def __init__(self, model, w):
        self.model, self.w = model, w
        self.neqn, self.n_disc, self.domain = model.m, model.n, list(model.dom)

    def setDisc(self, n):
        pass

    def discretize(self, u, par=False):
        self.w.hit('discretize')
        return Colloc(self, u)


class Values:
    def __init__(self, src):
        self.src = src

    @property
    def values(self):
        q = self.src
        q.w.hit('residual')
        return q.w.mangle('residual', q.model.F(q.c))


class Source:
    def __init__(self, op, u):
        self.model, self.w = op.model, op.w
        self.rhs = Values(self)
        self.update_partial(u)

    def update_partial(self, u):
        m = self.model
        self.c = fit(np.array(u.u.coeffs), m.n, m.trig).astype(complex if m.trig else float)


class Proj:
    def __init__(self, n):
        self.shape = (n, n)

    def dot(self, x):
        return np.array(x)


class Colloc:
    def __init__(self, op, u):
        self.op = op
        self.source = Source(op, u)
        self.proj = Proj(op.model.n * op.model.m)

    def project_vector(self, v, cts=False, **kw):
        return np.array(v)

    def matrix(self, eps=None, **kw):
        self.op.w.hit('matrix')
        M = self.op.model.J(self.source.c)
        M = self.op.w.mangle('matrix', M)
        return sps.csr_matrix(M), None, self.proj


class Faults:
    def __init__(self):
        self.n = dict(discretize=0, residual=0, matrix=0)
        self.plan, self.log, self.exc = None, [], None
        self.calls = 0

    def due(self, kind):
        q = self.plan
        return q is not None and q['where'] == kind and (self.n[kind] >= q['at'] if q['sticky'] else self.n[kind] == q['at'])

    def hit(self, kind):
        self.n[kind] += 1
        self.calls += 1
        if self.calls > 60000:
            raise StepLimit('no end')
        if self.due(kind) and self.plan['what'] == 'raise':
            self.log.append((kind, 'raise'))
            self.exc = OperatorError('injected')
            raise self.exc

    def mangle(self, kind, v):
        if not self.due(kind) or self.plan['what'] == 'raise':
            return v
        self.log.append((kind, self.plan['what']))
        v = v.copy()
        k = self.plan['pos'] % v.shape[0]
        if self.plan['what'] == 'singular':
            v[k] = 0
        else:
            v[k] = np.nan if self.plan['what'] == 'nan' else np.inf
        return v


class DeflEngine(Engine):
    shrink_keys = ('ops',)
    run_timeout = 150
    preload = ['funpy.newton.newton_seeker', 'funpy.newton.NewtonSystem', 'funpy.colloc.chebOp', 'funpy.vectorspaces']
    measure = 'distinct (world, basis, columns, method, number of known solutions, start, fault, outcome) situations'
    rule = ('one run is a seeded history of 3-9 searches, additions to the list of known solutions and inspections of deflated systems, by '
            'one or two seekers; distinct = distinct digests')
    real = ['funpy.newton', 'funpy.support', 'funpy.linalg', 'funpy.vectorspaces', 'funpy.fun', 'funpy.cheb', 'funpy.trig', 'scipy', 'pylops',
            'funpy.colloc (runs on real operators)']
    stub = ['differential operator (three runs in four: equations for coefficients with known solutions)']
    assumptions = ['solutions are isolated and simple', 'searches do not start at a solution already known to rounding']
    quick_runs = 6000
    thorough_runs = 60000
    quick_wall = 90
    must_hit = ['op:search', 'op:append', 'op:system', 'fault:tick', 'fault:raise', 'fault:nan', 'fault:singular', 'probe:success', 'probe:failure',
                'probe:second-solution', 'probe:third-solution', 'probe:not-learned', 'probe:real-operator', 'probe:found-nearby',
                'probe:start-near-known', 'probe:two-seekers', 'probe:recovered', 'probe:long-known']

    def __init__(self, prop):
        self.prop = prop

    # ------------------------------------------------------------------------------------------- generation
    def gen(self, rng, idx, tier):
        real = rng.random() < .15
        ops = []

        def pos():
            return [round(rng.uniform(-1, 1), 4) for _ in range(2)]
        if real:
            P = rng.choice(REAL)
            cfg = dict(world='real', p=P.name, pars={k: round(rng.uniform(*v), 4) for k, v in P.pars.items()}, n=rng.choice([20, 24, 28]) + (1 if P.trig else 0))
        else:
            m = rng.choice([1, 1, 1, 2, 2, 3])
            cfg = dict(world='sim', basis=rng.choice(['cheb', 'trig']), dom=list(rng.choice([list(d) for d in DOMS])), m=m,
                       n=rng.choice([7, 9, 9, 11, 17]), slots=rng.choice([1, 1, 2]), nroots=rng.choice([2, 3, 3, 4]), s=rng.randrange(1 << 30))
        two = rng.random() < .25
        faulty = rng.random() < .5
        for _ in range(rng.choice([3, 4, 5] if real else [3, 4, 6, 9])):
            k = rng.choices(['search', 'append', 'system'], [7, 1.2, 1.5])[0]
            op = dict(op=k, who=rng.randrange(2) if two else 0, s=rng.randrange(1 << 30))
            if k == 'search':
                op.update(method=rng.choices(['nleq', 'nleq-err', 'giant'], [6, 1, 1 if not real else .1])[0], learn=rng.random() < .85,
                          start=rng.choice(['near', 'near', 'near-new', 'near-new', 'random', 'random', 'beside-known', 'same']), amp=pos(), root=rng.randrange(64),
                          rho=rng.choice([.003, .02, .1, .4]), short=rng.random() < .3, miter=rng.choice([None, None, 40, 40, 3, 12]),
                          tol=rng.choice([1e-9, 1e-9, 1e-7, 1e-11]), fresh=rng.random() < (.35 if real else .6), touch=rng.random() < .3)
                if faulty and rng.random() < .45:
                    if real or rng.random() < .4:
                        op['fault'] = dict(what='tick', exc=rng.choice(list(EXC)), at=int(math.exp(rng.uniform(0, math.log(40000)))))
                    else:
                        w = rng.choice(['raise', 'raise', 'nan', 'inf', 'singular'] if op['method'] != 'giant' else ['raise', 'singular'])
                        op['fault'] = dict(what=w, where=dict(raise_=0, nan='residual', inf='residual', singular='matrix').get(w) or
                                           rng.choice(['discretize', 'residual', 'matrix']), at=rng.choice([1, 2, 3, 5, 8, 13]),
                                           sticky=rng.random() < .5, pos=rng.randrange(1000))
            elif k == 'append':
                op.update(form=rng.choice(['list', 'state', 'list2']), what=rng.choice(['root', 'other']), root=rng.randrange(64), amp=pos(),
                          len=rng.choice([1, 5, 7, 9, 21, 33, 41]), off=round(10 ** rng.uniform(.8, 3), 3))
            else:
                op.update(n=rng.choice([0, 0, 1, 2, 2, 3]), own=rng.random() < .4, amp=pos(), lens=[rng.choice([5, 9, 9]) for _ in range(3)], solve=rng.random() < .4)
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            for k, v in (('fault', None), ('who', 0), ('fresh', False), ('touch', False), ('short', False), ('miter', None), ('start', 'random'), ('n', 1), ('own', False)):
                if k in op and op[k] not in (v, None):
                    o2 = [dict(o) for o in plan['ops']]
                    o2[i][k] = v
                    yield dict(plan, ops=o2)
        c = plan['cfg']
        if c['world'] == 'sim':
            for k, v in (('m', 1), ('slots', 1), ('n', 9), ('dom', [-1.0, 1.0]), ('nroots', 2)):
                if c[k] != v:
                    yield dict(plan, cfg=dict(c, **{k: v}))

    # ------------------------------------------------------------------------------------------- the world
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(11)
        from funpy.fun import Fun
        from funpy.vectorspaces import DeflationState
        from funpy.newton.newton_seeker import NewtonSeeker
        self.Fun, self.DS, self.Seeker = Fun, DeflationState, NewtonSeeker
        self.rec, self.mon, self.cfg = rec, monitor(), plan['cfg']
        cfg = self.cfg
        self.real = cfg['world'] == 'real'
        if self.real:
            self.P = BYNAME[cfg['p']]
            self.trig, self.m, self.dom = self.P.trig, self.P.neqn, list(self.P.dom)
            self.pars = dict(cfg['pars'])
            rec.count('probe:real-operator')
        else:
            self.model = Model(cfg, cfg['s'])
            self.trig, self.m, self.dom = self.model.trig, self.model.m, list(self.model.dom)
            self.pars = {}
        self.seekers = {}
        self.found = []              # (returned state, picture)
        self.last, self.slow = None, False
        for op in plan['ops']:
            rec.simtime += 1
            getattr(self, 'x_' + op['op'])(op)
            if rec.violations or self.slow:
                return
            for s in self.seekers.values():
                rec.count('check:list', 1)
                if [picture(f) for f in s['sk'].known_solutions] != s['known']:
                    return rec.violate('list', op['op'], 'the list of known solutions changed: %d entries, expected %d' % (
                        len(s['sk'].known_solutions), len(s['known'])))
            for st, pic in self.found:
                if state_picture(st) != pic:
                    return rec.violate('independence', op['op'], 'a solution returned by an earlier search changed')

    def operator(self):
        if not self.real:
            w = Faults()
            return SimOp(self.model, w), w
        from funpy.colloc.chebOp import ChebOp
        P = self.P
        with contextlib.redirect_stdout(io.StringIO()):
            o = O.make_op(None, ChebOp, P, self.pars, self.cfg['n'])
            o.setDisc(self.cfg['n'])
        return o, None

    def seeker(self, who):
        if who not in self.seekers:
            o, w = self.operator()
            self.seekers[who] = dict(sk=self.Seeker(o), w=w, op=o, known=[])
            if len(self.seekers) == 2:
                self.rec.count('probe:two-seekers')
        return self.seekers[who]

    def fn(self, c):
        c = np.asfortranarray(c)
        f = self.Fun(coeffs=c, domain=list(self.dom), type='trig' if self.trig else 'cheb', simplify=False)
        return np.real(f) if self.trig else f

    def state(self, c):
        return self.DS(u=self.fn(c), **self.pars)

    def start(self, op, s):
        """coefficients of the starting function"""
        r = np.random.RandomState(op['s'] % (1 << 31))
        n = self.cfg['n']
        if op['start'] == 'same' and self.last is not None:
            return self.last.copy()
        ks = s['sk'].known_solutions
        bump = fit(series(5, self.m, op['s'], 'trig' if self.trig else 'cheb', False, .5), n, self.trig)
        bump /= max(1e-3, float(np.max(np.abs(Pic(bump, self.dom, self.trig).ev(PROBE)))))
        if op['start'] == 'beside-known' and ks:
            self.rec.count('probe:start-near-known')
            return fit(np.array(ks[op['root'] % len(ks)].coeffs), n, self.trig) + max(op['rho'], .05) * bump
        if self.real:
            P, a, b = self.P, 3 * op['amp'][0], 1.5 * op['amp'][1]
            lo, hi = P.dom
            if self.trig or P.name == 'neu':
                ops = [lambda x: a + b * np.cos(x), lambda x: .4 + b * np.sin(x)][:self.m]
            else:
                ops = [lambda x: (a + b * x) * (x - lo) * (hi - x)]
            f = self.Fun(op=ops if self.m > 1 else ops[0], domain=list(self.dom), type='trig' if self.trig else 'cheb')
            return fit(np.array(f.coeffs), n, self.trig)
        M = self.model
        if op['start'] == 'near':
            return M.roots[op['root'] % len(M.roots)] + op['rho'] * bump
        if op['start'] == 'near-new':
            new = [c for c in M.roots if not any(self.far(c, k) < 1e-3 for k in ks)]
            if new:
                return new[op['root'] % len(new)] + op['rho'] * bump
        ts = [np.mean(rs) + 2.5 * op['amp'][i] for i, rs in enumerate(M.roots1)]
        return M.at(ts) + bump * r.uniform(0, 1)

    def far(self, c, f):
        """greatest difference between coefficients and a function"""
        S = Snap(f)
        return float(np.max(np.abs(Pic(c, self.dom, self.trig).ev(PROBE) - S.ev(PROBE))))

    # ------------------------------------------------------------------------------------------- requests
    def x_append(self, op):
        rec = self.rec
        s = self.seeker(op['who'])
        rec.count('op:append')
        if op['what'] == 'root' and not self.real:
            c = self.model.roots[op['root'] % len(self.model.roots)]
        else:
            kind = 'trig' if self.trig else 'cheb'
            c = series(op['len'], self.m, op['s'], kind, False, .5, scale=1.5)       # shorter or longer than the iterates
            c[(len(c) // 2) if self.trig else 0] += op['off'] * (1 if op['amp'][0] > 0 else -1)
            if len(c) > self.cfg['n']:
                rec.count('probe:long-known')
        if any(self.far(c, k) < 1e-3 for k in s['sk'].known_solutions):
            return
        f = self.fn(c)
        if op['form'] == 'state':
            s['sk'].append(self.DS(u=f))
            s['known'].append(picture(s['sk'].known_solutions[-1]) if len(s['sk'].known_solutions) == len(s['known']) + 1 else None)
        else:
            fs = [f] if op['form'] == 'list' else [f, self.fn(c + .7 * np.eye(len(c), 1, -(len(c) // 2) if self.trig else 0) @ np.ones((1, self.m)))]
            fs0 = list(fs)
            s['sk'].append(fs)
            s['known'] += [picture(q) for q in fs0]
            fs.clear()             # the list is the caller's
        new = s['sk'].known_solutions[-1:]
        if op['form'] != 'list2' and new and self.far(c, new[0]) > 1e-12 * (1 + np.max(np.abs(c))):
            rec.violate('list', 'append', 'the function added is not the one given')
        rec.event('append', op['form'], len(s['known']))

    def attempt(self, s, sk, st, op, fault):
        rec, mon = self.rec, self.mon
        w = s['w']
        if w is not None:
            w.n = dict.fromkeys(w.n, 0)
            w.calls, w.log, w.exc = 0, [], None
            w.plan = fault if fault and fault['what'] != 'tick' else None
        tick = fault if fault and fault['what'] == 'tick' else None
        kw = dict(method=op['method'], tol=op['tol'], precond=op['method'] == 'giant')
        if op['miter'] is not None:
            kw['miter'] = op['miter']
        if not op['learn']:
            kw['learn_solution'] = False
        mon.start(limit=LIMIT if op['method'] != 'giant' else 300000, at=tick['at'] if tick else None, exc=EXC[tick['exc']]('injected') if tick else None)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return 'ok', sk.solve(st, **kw)
        except StepLimit as e:
            if op['method'] == 'giant':        # thousands of inner iterations: its ends are P10 and P12
                rec.count('skip:slow')
                self.slow = True
            else:
                rec.violate('progress', 'search', str(e))
            return 'stuck', None
        except BaseException as e:
            if tick and mon.fired is not None:
                rec.count('fault:tick')
                return 'interrupted', e
            if w is not None and e is w.exc:
                rec.count('fault:raise')
                return 'interrupted', e
            return 'raise', e
        finally:
            mon.stop()
            rec.simtime += mon.n
            if w is not None:
                for _, what in w.log:
                    if what != 'raise':
                        rec.count('fault:' + what)
                w.plan = None

    def x_search(self, op):
        rec = self.rec
        rec.count('op:search')
        s = self.seeker(op['who'])
        sk = s['sk']
        c0 = self.start(op, s)
        if any(self.far(c0, k) < 1e-2 for k in sk.known_solutions):
            rec.count('skip:start-known')
            return
        self.last = c0.copy()
        st = self.state(c0)
        if not op['short'] or self.real:
            st.prolong(self.cfg['n'])
        pic = state_picture(st)
        fault = op.get('fault')
        if fault:
            known = list(sk.known_solutions)
            out, r = self.attempt(s, sk, st, op, fault)
            rec.event('faulty', out, type(r).__name__ if out != 'ok' else bool(r[1]))
            if rec.violations or self.slow:
                return
            if state_picture(st) != pic:
                return rec.violate('arguments', 'search', 'the starting state changed (search with faults)')
            if not self.judge(op, s, known, out, r, True):
                return
            if out == 'ok' and r[1]:
                return
            if len(sk.known_solutions) != len(known):
                return                      # interrupted after the solution was recorded
            rec.count('probe:retried')
        known = list(sk.known_solutions)
        fresh = None
        if op['fresh']:
            o, w = (s['op'], s['w']) if self.real else self.operator()
            fresh = dict(sk=self.Seeker(o), w=w, op=o)
            if known:
                fresh['sk'].append([copy.deepcopy(k) for k in known])
            st2 = copy.deepcopy(st)
            out2, r2 = self.attempt(fresh, fresh['sk'], st2, op, None)
            if rec.violations or self.slow:
                return
        out, r = self.attempt(s, sk, st, op, None)
        if rec.violations or self.slow:
            return
        if state_picture(st) != pic:
            return rec.violate('arguments', 'search', 'the starting state changed')
        rec.event('search', op['method'], op['start'], len(known), out, bool(r[1]) if out == 'ok' else type(r).__name__)
        rec.state((self.cfg['world'], self.trig, self.m, op['method'], min(len(known), 4), op['start'], bool(fault), out, out == 'ok' and bool(r[1]), op['learn']))
        if not self.judge(op, s, known, out, r, False):
            return
        if op['fresh']:
            rec.count('check:fresh')
            if out != out2 or (out == 'ok' and (bool(r[1]) != bool(r2[1]) or r[2] != r2[2])):
                return rec.violate('like-fresh', 'search', 'a seeker with a history: %s %s, a fresh one with the same list: %s %s' % (
                    out, r[1:] if out == 'ok' else r, out2, r2[1:] if out2 == 'ok' else r2))
            if out == 'ok' and r[1]:
                A, B = Snap(r[0].u).ev(PROBE), Snap(r2[0].u).ev(PROBE)
                if not np.max(np.abs(A - B)) <= 1e-8 * (1 + np.max(np.abs(B))):
                    return rec.violate('like-fresh', 'search', 'a seeker with a history and a fresh one found functions %.3g apart' % np.max(np.abs(A - B)))
        if out == 'ok' and r[1]:
            if fault:
                rec.count('probe:recovered')
        # -- a new solution close by is found
        if not self.real and op['start'] in ('near', 'near-new') and op['rho'] <= .003 and op['method'] != 'giant' and op['miter'] in (None, 40):
            near = [c for c in self.model.roots if np.max(np.abs(Pic(c, self.dom, self.trig).ev(PROBE) - Pic(c0, self.dom, self.trig).ev(PROBE))) < .02]
            if near and all(self.far(near[0], k) > .3 for k in known):
                rec.count('probe:found-nearby')
                if out != 'ok' or not r[1] or self.far(near[0], r[0].u) > 1e-5:
                    return rec.violate('nearby', 'search', 'started %.3g from a simple solution that is not in the list of %d, answer: %s' % (
                        self.far(c0, self.fn(near[0])), len(known), 'success elsewhere' if out == 'ok' and r[1] else 'failure' if out == 'ok' else r))
        if out == 'ok' and r[1] and op['touch']:
            # what was returned belongs to the caller as a number: writing to a copy of it must not matter, nor to the starting state
            q = copy.deepcopy(r[0])
            q.u.onefun.coeffs[:] = 77.0
            st.u.onefun.coeffs[:] = -77.0

    def judge(self, op, s, known, out, r, faulty):
        """the list and the solution, after a search; False when violated"""
        rec, sk = self.rec, s['sk']
        now = list(sk.known_solutions)
        V = lambda o, msg: (rec.violate(o, 'search', msg), False)[1]
        if out == 'raise':
            rec.count('probe:exception')
            e = r
            tolerated = isinstance(e, (np.linalg.LinAlgError, RuntimeError, ZeroDivisionError, OverflowError, ValueError, AssertionError, FloatingPointError))
            if isinstance(e, (NameError, TypeError, AttributeError, IndexError, KeyError, ImportError)) or (isinstance(e, ValueError) and 'mismatch' in str(e)):
                return V('answers', '%s: %s (%d known solutions)' % (type(e).__name__, e, len(known)))
            if not tolerated:
                return V('answers', '%s: %s' % (type(e).__name__, e))
        gained = len(now) - len(known)
        if now[:len(known)] != known if gained < 0 else any(a is not b for a, b in zip(now, known)):
            return V('list', 'earlier entries of the list of known solutions were replaced')
        ok = out == 'ok' and bool(r[1])
        if out == 'interrupted' and gained == 1:
            rec.count('probe:interrupted-late')
            sol = now[-1]
            if not op['learn']:
                return V('list', 'an interrupted search without learning changed the list')
        elif gained != (1 if ok and op['learn'] else 0):
            return V('list', 'the list of known solutions went from %d to %d entries (answer: %s, success %s, learning %s)' % (
                len(known), len(now), out, ok, op['learn']))
        else:
            sol = r[0].u if ok else None
        if gained:
            s['known'].append(picture(now[-1]))
        if out == 'ok' and not ok:
            rec.count('probe:failure')
        if sol is None:
            return True
        rec.count('probe:success')
        if ok and not op['learn']:
            rec.count('probe:not-learned')
        if len(known) == 1:
            rec.count('probe:second-solution')
        if len(known) == 2:
            rec.count('probe:third-solution')
        S = Snap(sol)
        if S.m != self.m or tuple(S.dom) != tuple(float(d) for d in self.dom) or not np.all(np.isfinite(S.ev(PROBE))):
            return V('solution', 'success, but the answer has %d columns on %s or is not finite' % (S.m, S.dom))
        if gained and np.max(np.abs(Snap(now[-1]).ev(PROBE) - S.ev(PROBE))) > 0:
            return V('list', 'the function recorded is not the one returned')
        size = 1 + float(np.max(np.abs(S.ev(PROBE))))
        if np.max(np.abs(np.imag(S.ev(PROBE)))) > 1e-9 * size:
            return V('solution', 'a real problem got a complex answer')
        rec.count('check:distinct', max(1, len(known)))
        for i, k in enumerate(known):
            d = float(np.max(np.abs(Snap(k).ev(PROBE) - S.ev(PROBE))))
            if not d > 1e-4 * size:
                return V('distinct', 'the search found solution %d of %d again (difference %.3g)' % (i + 1, len(known), d))
        if not self.real:
            d = min(self.far(c, sol) for c in self.model.roots)
            rec.count('check:solution')
            if not d <= 20 * max(op['tol'], 1e-9) * size:
                return V('solution', 'success, but the nearest solution is %.3g away (size %.3g)' % (d, size))
        else:
            c = np.abs(S.c)
            top = float(np.max(c))
            tail = 0.0 if S.n < self.cfg['n'] else float(np.max(c[-6:]) if not self.trig else max(np.max(c[:2]), np.max(c[-2:])))
            if tail < 1e-7 * top:      # resolved
                eq, bc, mag = O.reference_residual(self.P, sol, self.pars)
                rec.count('check:equation')
                if not max(eq, bc) <= 1e-3 * max(1.0, mag) + 10 * tail * S.n ** 4:      # two derivatives of what is cut off
                    return V('solution', '%s: success, but the equation is off by %.3g, the boundary conditions by %.3g' % (self.P.name, eq, bc))
            else:
                rec.count('probe:unresolved')
        if ok:
            self.found.append((r[0], state_picture(r[0])))
            del self.found[:-5]
        return True

    def x_system(self, op):
        """one deflated system: its residual, its derivative, its linear solve"""
        if self.real:
            return
        rec = self.rec
        from funpy.newton.NewtonSystem import NewtonSystem
        M = self.model
        s = self.seeker(op['who'])
        rec.count('op:system')
        kind = 'trig' if self.trig else 'cheb'
        mk = lambda z, n=9, sc=1.0: fit(series(n, self.m, (op['s'] + z) % (1 << 30), kind, False, .4, scale=sc), M.n, self.trig)
        half = 9 if self.trig else (M.n + 1) // 2          # the inner products are quadratures with n points
        u = mk(0, min(9, half))
        x = mk(1, min(9, half))
        ks = [k for k in s['sk'].known_solutions if self.trig or k.n <= 9] if op['own'] and (self.trig or M.n >= 17) else []
        for i in range(op['n']):
            L = min(op['lens'][i % 3], half)
            c = series(L, self.m, (op['s'] + 10 + i) % (1 << 30), kind, False, .4, scale=1.3)
            c[(len(c) // 2) if self.trig else 0] += op['amp'][i % 2]
            ks.append(self.fn(c))
        st, v = self.state(u), self.state(mk(2))
        pics = [picture(k) for k in ks], state_picture(st), state_picture(v)
        dt = np.complex128 if self.trig else np.float64
        op_, w = self.operator()
        self.mon.start(limit=LIMIT)
        try:
            S = NewtonSystem(st, op_, ks=ks, dtype=dt, exact='lu' if op['solve'] else None)
            A, _, _ = S.matrix()
            got = np.array(A.matvec(x.flatten(order='F').astype(dt)))
            Mt = A.to_matrix()
            Mt = np.asarray(Mt.todense() if sps.issparse(Mt) else Mt)
            r0 = np.array(S.rhs(st))
            r1 = np.array(S.rhs(v))
            sol = S.solve(got)[0] if op['solve'] else None
        except StepLimit as e:
            return rec.violate('progress', 'system', str(e))
        except np.linalg.LinAlgError:
            return
        except RuntimeError as e:
            if 'singular' in str(e):
                return
            return rec.violate('answers', 'system', '%s: %s' % (type(e).__name__, e))
        except Exception as e:
            return rec.violate('answers', 'system', '%s: %s' % (type(e).__name__, e))
        finally:
            self.mon.stop()
        if ([picture(k) for k in ks], state_picture(st), state_picture(v)) != pics:
            return rec.violate('arguments', 'system', 'a known solution or the point of linearisation changed')

        def eta(c):
            U, e, ds = Pic(c, self.dom, self.trig), 1.0, []
            for k in ks:
                K = Snap(k)
                n = max(len(c), K.n) | 1 if self.trig else max(len(c), K.n)
                D = Pic(fit(c, n, self.trig) - fit(K.c, n, self.trig), self.dom, self.trig)
                N = math.sqrt(inner1(D, D))
                ds.append((D, N))
                e *= 1 + 1 / N ** 2
            return e, ds
        dt0 = lambda c: c.astype(dt)
        e0, ds = eta(u)
        if any(N < 1e-3 for _, N in ds):
            return
        X = Pic(x, self.dom, self.trig)
        de = e0 * sum(-2 * inner1(D, X) / (N ** 4 * (1 + 1 / N ** 2)) for D, N in ds)
        F0 = M.F(dt0(u)).flatten(order='F')
        want = e0 * (M.J(dt0(u)) @ dt0(x).flatten(order='F')) + F0 * de
        e1 = eta(mk(2))[0]
        rec.count('check:deflated-system')
        rec.event('system', self.trig, self.m, len(ks))
        rec.state(('system', self.trig, self.m, len(ks), op['solve']))
        sc = 1 + float(np.max(np.abs(want)))
        if np.max(np.abs(r0.ravel() - e0 * F0)) > 1e-8 * (1 + e0 * np.max(np.abs(F0))) or \
                np.max(np.abs(r1.ravel() - e1 * M.F(dt0(mk(2))).flatten(order='F'))) > 1e-8 * (1 + e1 * np.max(np.abs(M.F(dt0(mk(2)))))):
            return rec.violate('deflation', 'system', 'the deflated residual is off (%d known solutions, factor %.6g)' % (len(ks), e0))
        if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-6 * sc:
            return rec.violate('deflation', 'system', 'the derivative of the deflated residual is off by %.3g of %.3g (%d known solutions)' % (
                np.max(np.abs(got - want)) if got.shape == want.shape else np.nan, sc, len(ks)))
        if np.max(np.abs(Mt @ x.flatten(order='F').astype(dt) - got)) > 1e-8 * sc:
            return rec.violate('deflation', 'system', 'the matrix of the deflated system is not its action')
        if sol is not None and np.linalg.cond(Mt) < 1e7:
            d = self.far(x, sol.u)
            if d > 1e-6 * (1 + np.max(np.abs(x))):
                return rec.violate('deflation', 'system', 'the linear solve of the deflated system is off by %.3g' % d)
