"""P11: differential operators - every request against a freshly built operator and against the equation itself,
across histories of solves, re-discretisations, parameter changes, copies, several live operators and interruptions."""
import contextlib
import copy
import io
import math
import warnings

import numpy as np

from .core import Engine
from .fengine import EXC
from .hooks import monitor, StepLimit
from .states import isfun, picture, state_picture
from .model import Snap, PROBE
from . import oworld as O

LIMIT = 6000000


class OpEngine(Engine):
    shrink_keys = ('ops',)
    run_timeout = 150
    preload = ['funpy.newton.newton_seeker', 'funpy.colloc.chebOp', 'funpy.colloc.eig', 'funpy.vectorspaces']
    measure = 'distinct (problem, request, method, adaptivity, what the operator was asked before, outcome) situations'
    rule = ('one run is a seeded history of 4-12 requests (build, copy, change parameter, solve, residual, action, matrix, eigenvalues, '
            'deflated search) to 1-3 live operators, some interrupted and retried; distinct = distinct digests')
    real = ['funpy.colloc', 'funpy.newton', 'funpy.linalg', 'funpy.fun', 'funpy.cheb', 'funpy.trig', 'funpy.vectorspaces',
            'sympy', 'scipy', 'pylops', 'numpy']
    stub = []
    assumptions = ['the fourteen well-posed problems of the catalogue, at parameters where Newton converges from the given guesses',
                   'equality with a freshly built operator is asked to 1e-9 of the size of the function']
    quick_runs = 3000
    thorough_runs = 40000
    quick_wall = 60
    must_hit = ['fault:tick', 'op:solve', 'op:apply', 'op:matrix', 'op:eigs', 'op:copy', 'op:setpar', 'op:pder', 'probe:interrupted', 'probe:several-operators']

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, idx, tier):
        names = [p.name for p in O.PROBLEMS]
        mine = rng.sample(names, rng.choice([1, 1, 2, 2, 3]))
        ops = []
        faulty = rng.random() < 0.6

        def pars(P):
            return {k: round(rng.uniform(*v), 4) for k, v in P.pars.items()}

        def new(name):
            return dict(op='newop', p=name, pars=pars(O.BYNAME[name]), n=rng.choice([12, 16, 24]), cpar=rng.random() < .5)
        for m in mine:
            ops.append(new(m))
        for _ in range(rng.choice([3, 5, 7, 9])):
            k = rng.choices(['solve', 'apply', 'matrix', 'setpar', 'copy', 'newop', 'eigs', 'seek', 'pder'], [8, 2.5, 2.5, 2, 1, .6, 1, .8, 1.2])[0]
            if k == 'newop':
                ops.append(new(rng.choice(mine)))
                continue
            op = dict(op=k, i=rng.randrange(64), u=rng.random())
            if k == 'solve':
                op['method'] = rng.choice(O.METHODS)
                op['adaptive'] = rng.random() < 0.6
                op['n'] = rng.choice([16, 24, 24, 32])
                op['guess'] = rng.choice(['zero', 'zero', 'fun', 'fun', 'earlier', 'state'])
                op['amp'] = rng.choice([1.0, 0.5, -0.5])
                op['newpar'] = round(rng.random(), 4)
                op['state'] = rng.random() < 0.3
            elif k in ('apply', 'matrix', 'eigs', 'seek', 'pder'):
                op['k'] = rng.randrange(4)
                op['n'] = rng.choice([16, 20, 24])
                op['amp'] = rng.choice([1.0, 0.5, -0.5])
                op['guess'] = rng.choice(['fun', 'fun', 'earlier'])
                if k == 'apply':
                    op['how'] = rng.choice(['plain', 'again', 'kept'])
            elif k == 'setpar':
                op['k'] = rng.randrange(4)
                op['v'] = round(rng.random(), 4)
            if faulty and k != 'setpar' and rng.random() < 0.35:
                op['fault'] = dict(k=int(math.exp(rng.uniform(0, math.log(30000)))),
                                   exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'SimFault', 'LinAlgError', 'RuntimeError']))
            ops.append(op)
        return dict(ops=ops)

    # ------------------------------------------------------------------------------------------------ the run
    def run(self, plan, rec):
        import funpy as fp
        from funpy.fun import Fun
        from funpy.colloc.chebOp import ChebOp
        from funpy.vectorspaces import DeflationState
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(4242)
        self.fp, self.Fun, self.ChebOp, self.DS = fp, Fun, ChebOp, DeflationState
        self.rec = rec
        self.mon = monitor()
        self.ops = []                  # dict(op=, p=, pars=, given=, hist=)
        self.results = []              # (problem name, function, picture)
        for op in plan['ops']:
            rec.simtime += 1
            k = op['op']
            if k != 'newop' and not self.ops:
                continue
            getattr(self, 'x_' + k)(op)
            if rec.violations:
                return
            for e in self.ops:
                if e['given'] != e['given0']:
                    rec.violate('arguments', k, 'the lists or dictionaries an operator was built from changed: %r -> %r' % (
                        e['given0'], e['given']))
                    return
            rec.count('check:results-intact', len(self.results))
            for name, f, pic in self.results:
                now = None
                try:
                    now = picture(f) if isfun(f) else state_picture(f)
                except Exception as err:
                    now = repr(err)
                if now != pic:
                    rec.violate('independence', k, 'an earlier function (%s) changed' % name)
                    return

    def build(self, name, pars, n, cpar=False):
        P = O.BYNAME[name]
        given = dict(functions=['u', 'v'][:P.neqn], parameters=dict(pars), domain=list(P.dom), eqn=list(P.eqn), bc=list(P.bc))
        kw = dict(given, n=n, diff_order=P.order)
        if P.trig:
            kw.update(colloc='trigspec', ftype='trig')
        elif cpar:
            kw['cpar'] = sorted(P.pars)
        return self.ChebOp(**kw), given

    def x_newop(self, op):
        o, given = self.build(op['p'], op['pars'], op['n'], op.get('cpar'))
        self.ops.append(dict(op=o, p=op['p'], pars=dict(op['pars']), given=given, given0=copy.deepcopy(given), hist=[], cpar=op.get('cpar')))
        if len(self.ops) > 4:
            self.ops.pop(0)
        if len(self.ops) > 1:
            self.rec.count('probe:several-operators')
        self.rec.count('op:newop')

    def x_copy(self, op):
        e = self.ops[op['i'] % len(self.ops)]
        how = lambda: copy.deepcopy(e['op'])
        o = self.guarded(how, op, e)
        if o is None:
            o = how()
        self.ops.append(dict(op=o, p=e['p'], pars=dict(e['pars']), given=e['given'], given0=e['given0'], hist=e['hist'] + ['copy'], cpar=e['cpar']))
        e['hist'].append('copied')
        if len(self.ops) > 4:
            self.ops.pop(0)
        self.rec.count('op:copy')

    def x_setpar(self, op):
        e = self.ops[op['i'] % len(self.ops)]
        P = O.BYNAME[e['p']]
        ks = sorted(P.pars)
        k = ks[op['k'] % len(ks)]
        lo, hi = P.pars[k]
        v = round(lo + (hi - lo) * op['v'], 5)
        # parameters belong to the operator: a change to one must not reach another, nor the caller's dictionary
        e['op'].parameter_names = dict(e['op'].parameter_names, **{k: v})
        e['pars'][k] = v
        e['hist'].append('setpar')
        self.rec.count('op:setpar')

    # -- running
    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def guarded(self, thunk, op, e):
        """one request, interrupted at a scheduled tick if the plan says so (then None)"""
        f = op.get('fault')
        if not f:
            return None
        exc = EXC[f['exc']]() if f['exc'] in EXC else np.linalg.LinAlgError('singular (injected)') if f['exc'] == 'LinAlgError' \
            else RuntimeError('factor is exactly singular (injected)')
        self.mon.start(limit=LIMIT, at=f['k'], exc=exc)
        try:
            with self.quiet():
                thunk()
        except StepLimit:
            self.mon.stop()
            self.rec.violate('progress', op['op'], 'no end within the step budget')
            return None
        except BaseException as err:
            self.mon.stop()
            if self.mon.fired is None:
                raise
            self.rec.count('probe:interrupted')
        finally:
            self.mon.stop()
        self.rec.simtime += self.mon.n
        if self.mon.fired is not None:
            self.rec.count('fault:tick')
            e['hist'].append('interrupted')
        else:
            self.rec.count('fault-missed')
        return None

    def call(self, thunk):
        self.mon.start(limit=LIMIT)
        try:
            with self.quiet():
                return 'ok', thunk()
        except StepLimit:
            return 'hang', None
        except Exception as err:
            return 'error', err
        finally:
            n = self.mon.stop()
            self.rec.simtime += n

    def guess(self, e, op):
        """the starting function, as the caller would pass it"""
        P = O.BYNAME[e['p']]
        kind = op['guess']
        if kind == 'earlier':
            mine = [f for name, f, _ in self.results if name == e['p'] and isfun(f)]
            if mine:
                return mine[int(op['u'] * len(mine))]
            kind = 'fun'
        if kind == 'zero' and P.trig:
            kind = 'fun'
        return O.make_guess(self.Fun, P, 'fun' if kind == 'state' else kind, op.get('amp', 1.0))

    def both(self, e, op, request, what, plain=None):
        """interrupted attempt (if planned), then the request to this operator and to a fresh one
        (plain: what to ask of the fresh one, when the request to this one includes a detour that must leave no trace)"""
        rec = self.rec
        self.guarded(lambda: request(e['op']), op, e)
        if rec.violations:
            return None
        st, got = self.call(lambda: request(e['op']))
        fresh, _ = self.build(e['p'], e['pars'], 15, e['cpar'])
        st2, want = self.call(lambda: (plain or request)(fresh))
        rec.count('op:' + op['op'])
        rec.event(op['op'], e['p'], st, st2, str(got)[:80] if st == 'error' else '')
        rec.state((e['p'], op['op'], op.get('method'), op.get('adaptive'), op.get('guess'), tuple(e['hist'][-3:]), st))
        rec.count('check:%s-fresh' % what)
        if 'hang' in (st, st2):
            rec.violate('progress', op['op'], 'no end within the step budget')
            return None
        if st != st2:
            rec.violate('like-fresh', op['op'], '%s: used operator: %s %s; fresh operator: %s %s (history %s)' % (
                e['p'], st, got if st == 'error' else '', st2, want if st2 == 'error' else '', e['hist'][-6:]))
            return None
        if st == 'error':
            rec.violate('answers', op['op'], '%s: %s %s' % (e['p'], type(got).__name__, got))
            return None
        return got, want

    def same_fun(self, a, b, tol=1e-9):
        if a is None or b is None:
            return (a is None) == (b is None), 'None'
        A, B = Snap(a), Snap(b)
        if tuple(A.dom) != tuple(B.dom) or A.m != B.m:
            return False, 'shape or domain'
        x, y = A.ev(PROBE), B.ev(PROBE)
        s = max(1.0, float(np.max(np.abs(y))))
        d = float(np.max(np.abs(x - y)))
        if A.key() != B.key():
            self.rec.count('probe:not-bitwise')
        return bool(d <= tol * s), 'differ by %.3g (size %.3g)' % (d, s)

    # -- requests
    def x_solve(self, op):
        rec, DS = self.rec, self.DS
        e = self.ops[op['i'] % len(self.ops)]
        P = O.BYNAME[e['p']]
        pars = dict(e['pars'])
        g = self.guess(e, op)
        arg = g
        if op['guess'] == 'state':           # a state carries its own parameter values
            for k, (lo, hi) in P.pars.items():
                pars[k] = round(lo + (hi - lo) * op['newpar'], 5)
            arg = DS(u=g, **pars)
        before = None if arg is None else (picture(arg) if isfun(arg) else state_picture(arg))
        par0 = dict(e['op'].parameter_names)

        def request(o):
            if not op['adaptive']:
                o.setDisc(op['n'])
            return o.solve(arg, method=op['method'], adaptive=op['adaptive'], state=op['state'])
        r = self.both(e, op, request, 'solve')
        if r is None:
            return
        (s, ok, res), (s2, ok2, res2) = r
        e['hist'].append('solve' + ('A' if op['adaptive'] else 'N'))
        if before is not None and (picture(arg) if isfun(arg) else state_picture(arg)) != before:
            rec.violate('arguments', 'solve', 'the starting guess changed')
            return
        if e['op'].parameter_names != par0:
            rec.violate('arguments', 'solve', 'the operator parameters changed: %r -> %r' % (par0, e['op'].parameter_names))
            return
        rec.event(bool(ok), bool(ok2))
        if bool(ok) != bool(ok2):
            rec.violate('like-fresh', 'solve', '%s: success %s, of a fresh operator %s (history %s)' % (e['p'], ok, ok2, e['hist'][-6:]))
            return
        f, f2 = (s.u, s2.u) if op['state'] and s is not None and s2 is not None else (s, s2)
        if not ok:
            rec.count('probe:reported-failure')
            return
        good, why = self.same_fun(f, f2)
        if not good:
            rec.violate('like-fresh', 'solve', '%s %s: solutions of the used and of a fresh operator %s (history %s)' % (
                e['p'], op['method'], why, e['hist'][-6:]))
            return
        if not abs(res - res2) <= 1e-9 * max(1.0, abs(res2)):
            rec.violate('like-fresh', 'solve', '%s: residual %g, of a fresh operator %g' % (e['p'], res, res2))
            return
        if op['state']:
            ns = {k: complex(np.asarray(v)) for k, v in s.items() if k in pars}
            rec.count('check:state-parameters')
            for k, v in ns.items():
                if abs(v - pars[k]) > 1e-12:
                    rec.violate('equation', 'solve', '%s: the state returned carries %s=%s, solved with %s' % (e['p'], k, v, pars[k]))
                    return
        if op['adaptive'] or op['n'] >= 24:
            eq, bc, mag = O.reference_residual(P, f, pars)
            rec.count('check:equation')
            tol = (2e-5 if op['adaptive'] else 2e-3) * max(1.0, mag)      # a fixed resolution has a discretisation error
            if not (eq <= tol and bc <= tol):
                rec.violate('equation', 'solve', '%s %s: reported success, but the equation is off by %.3g, the boundary conditions by %.3g' % (
                    e['p'], op['method'], eq, bc))
                return
            if not res <= 1e-4 * max(1.0, mag):
                rec.violate('equation', 'solve', '%s: reported residual %.3g of a solution whose residual is %.3g' % (e['p'], res, eq))
                return
        self.keep(e['p'], f)

    def keep(self, name, f):
        self.results.append((name, f, picture(f) if isfun(f) else state_picture(f)))
        if len(self.results) > 6:
            self.results.pop(0)

    def at(self, e, op):
        g = self.guess(e, op)
        P = O.BYNAME[e['p']]
        if g is None:
            g = O.make_guess(self.Fun, P, 'fun', 1.0)
        n = max(op['n'], g.shape[0]) if not P.trig else max(op['n'], g.shape[0] + g.shape[0] % 2)
        return g, self.DS(u=copy.deepcopy(g).prolong(n), **e['pars']), n

    def x_apply(self, op):
        """residual function and its norm, for the parameters given with the state"""
        rec = self.rec
        e = self.ops[op['i'] % len(self.ops)]
        P = O.BYNAME[e['p']]
        g, st, n = self.at(e, op)
        before = (picture(g), state_picture(st))

        def request(o):
            o.setDisc(n)
            o.discretize(st)
            r = o(st.u)
            keep = Snap(r)
            res = o.residual(st.u)
            again = Snap(r)
            return r, res, keep.key() == again.key()

        def detour(o):
            # the residual function of another, shorter function in between: the norm that follows is still taken
            # at the resolution the operator was set to
            o.setDisc(n)
            o.discretize(st)
            r = o(st.u)
            keep = Snap(r)
            o(g)
            if op['how'] == 'again':
                o.setDisc(n)
            res = o.residual(st.u)
            again = Snap(r)
            return r, res, keep.key() == again.key()
        if op.get('how', 'plain') != 'plain':
            rec.count('check:residual-after-another')
        r = self.both(e, op, request if op.get('how', 'plain') == 'plain' else detour, 'residual', plain=request)
        if r is None:
            return
        (f, res, stable), (f2, res2, _) = r
        e['hist'].append('apply')
        if not stable:
            rec.violate('independence', 'apply', 'a residual function handed out changed with the next request')
            return
        if (picture(g), state_picture(st)) != before:
            rec.violate('arguments', 'apply', 'the function the operator was applied to changed')
            return
        good, why = self.same_fun(f, f2)
        if not good or not abs(res - res2) <= 1e-9 * max(1.0, abs(res2)):
            rec.violate('like-fresh', 'apply', '%s: residuals %s; norms %g, %g' % (e['p'], why, res, res2))
            return
        self.keep(e['p'] + '-residual', f)

    def x_matrix(self, op):
        rec = self.rec
        e = self.ops[op['i'] % len(self.ops)]
        g, st, n = self.at(e, op)
        before = (picture(g), state_picture(st))

        def dense(M):
            return None if M is None else np.asarray(M.todense() if hasattr(M, 'todense') else M)

        def request(o):
            o.setDisc(n)
            M, _, Pj = o.matrix(st)
            return dense(M), (np.asarray(Pj.dot(np.arange(1.0, 1 + Pj.shape[1]))) if hasattr(Pj, 'dot') else None)
        r = self.both(e, op, request, 'matrix')
        if r is None:
            return
        (M, p), (M2, p2) = r
        e['hist'].append('matrix')
        if (picture(g), state_picture(st)) != before:
            rec.violate('arguments', 'matrix', 'the state an operator was linearised at changed')
            return
        if M.shape != M2.shape or np.max(np.abs(M - M2)) > 1e-10 * max(1.0, np.max(np.abs(M2))):
            rec.violate('like-fresh', 'matrix', '%s: the linearised matrix is not that of a fresh operator' % e['p'])
            return
        if p is not None and (p.shape != p2.shape or np.max(np.abs(p - p2)) > 1e-10 * np.max(np.abs(p2))):
            rec.violate('like-fresh', 'matrix', '%s: the projection is not that of a fresh operator' % e['p'])

    def x_pder(self, op):
        """derivative of the residual with respect to a parameter"""
        rec = self.rec
        e = self.ops[op['i'] % len(self.ops)]
        P = O.BYNAME[e['p']]
        if P.trig or not e['cpar']:
            return
        g, st, n = self.at(e, op)
        ks = sorted(P.pars)
        k = ks[op['k'] % len(ks)]
        before = (picture(g), state_picture(st))

        def request(o):
            o.setDisc(n)
            o.discretize(st)
            return o.linSys.pDer(st.u, k)
        r = self.both(e, op, request, 'parameter-derivative')
        if r is None:
            return
        f, f2 = r
        e['hist'].append('pder')
        if (picture(g), state_picture(st)) != before:
            rec.violate('arguments', 'pder', 'the state an operator was linearised at changed')
            return
        good, why = self.same_fun(f, f2)
        if not good:
            rec.violate('like-fresh', 'pder', '%s: parameter derivatives of the used and of a fresh operator %s' % (e['p'], why))
            return
        want = O.reference_dp(P, st.u, e['pars'], k)
        got = Snap(f).ev(O.ZS)
        rec.count('check:equation')
        if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-6 * max(1.0, np.max(np.abs(want))):
            rec.violate('equation', 'pder', '%s: derivative with respect to %s is off by %.3g' % (
                e['p'], k, np.max(np.abs(got - want)) if got.shape == want.shape else np.nan))

    def x_eigs(self, op):
        """eigenvalues of the linearisation"""
        from funpy.colloc.eig import eigs
        rec = self.rec
        e = self.ops[op['i'] % len(self.ops)]
        if e['p'] == 'first':
            return
        g, st, n = self.at(e, op)
        before = state_picture(st)

        def request(o):
            o.setDisc(n)
            return eigs(o, st)
        r = self.both(e, op, request, 'eigenvalues')
        if r is None:
            return
        (ok, ev), (ok2, ev2) = r
        e['hist'].append('eigs')
        if state_picture(st) != before:
            rec.violate('arguments', 'eigs', 'the state an operator was linearised at changed')
            return
        ev, ev2 = [np.sort_complex(v[np.abs(v) < 200]) for v in (ev, ev2)]
        if bool(ok) != bool(ok2) or ev.shape != ev2.shape or (ev.size and np.max(np.abs(ev - ev2)) > 1e-6 * np.max(np.abs(ev2) + 1)):
            rec.violate('like-fresh', 'eigs', '%s: eigenvalues %s, of a fresh operator %s' % (e['p'], ev[:4], ev2[:4]))
            return
        if e['p'] == 'lin2' and ok:
            want = [-(k * np.pi / 2) ** 2 - e['pars']['b'] for k in (1, 2, 3)]
            rec.count('check:eigenvalues-exact')
            for v in want:
                if not np.min(np.abs(ev - v)) < 1e-5 * abs(v):
                    rec.violate('equation', 'eigs', 'lin2: eigenvalue %g missing from %s' % (v, ev[:6]))
                    return

    def x_seek(self, op):
        """deflated search: a found solution solves the equation, further searches do not find it again, the list is ours"""
        from funpy.newton.newton_seeker import NewtonSeeker
        rec = self.rec
        e = self.ops[op['i'] % len(self.ops)]
        P = O.BYNAME[e['p']]
        g, st, n = self.at(e, op)
        before = state_picture(st)
        kw = dict(method='nleq', tol=1e-9, precond=False)

        def request(o):
            o.setDisc(n)
            sk = NewtonSeeker(o)
            x, ok, it = sk.solve(st, **kw)
            y = None
            n1 = len(sk.known_solutions)
            return x, ok, n1
        r = self.both(e, op, request, 'search')
        if r is None:
            return
        (x, ok, n1), (x2, ok2, _) = r
        e['hist'].append('seek')
        if state_picture(st) != before:
            rec.violate('arguments', 'seek', 'the starting state changed')
            return
        if bool(ok) != bool(ok2):
            rec.violate('like-fresh', 'seek', '%s: success %s, of a fresh operator %s' % (e['p'], ok, ok2))
            return
        if n1 != (1 if ok else 0):
            rec.violate('search', 'seek', '%s: success %s but %d known solutions' % (e['p'], ok, n1))
            return
        if ok:
            good, why = self.same_fun(x.u, x2.u)
            if not good:
                rec.violate('like-fresh', 'seek', '%s: solutions of the used and of a fresh operator %s' % (e['p'], why))
                return
            if n >= 24:
                eq, bc, mag = O.reference_residual(P, x.u, e['pars'])
                rec.count('check:equation')
                if not max(eq, bc) <= 2e-3 * max(1.0, mag):
                    rec.violate('equation', 'seek', '%s: success, but the equation is off by %.3g, the boundary conditions by %.3g' % (e['p'], eq, bc))
