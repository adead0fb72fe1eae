"""P14: the adaptive resolution driver against scripted inner solvers."""
import copy
import math
import warnings

import numpy as np

from .core import Engine
from .fengine import EXC
from .fworld import DOMS, series
from .hooks import monitor, StepLimit
from .model import Snap, PROBE
from .states import PNAMES
from .vengine import SP, gram

LIMIT = 3000000
OUT = ['ok', 'same', 'fail-garbage', 'fail-same', 'fail-nan', 'fail-far', 'raise']


class InnerError(Exception):
    """raised by the scripted inner solver"""


class System:
    def __init__(self, log):
        self.log = log

    def setDisc(self, n):
        self.log.append(('disc', int(n)))


class Inner:
    """a scripted nonlinear solver: what it returns at each call is written in the plan"""
    def __init__(self, eng, script, target, reuse, faultless=False):
        self.eng, self.script, self.target, self.reuse = eng, script, target, reuse
        self.log = []
        self.system = System(self.log)
        self.neval = 0
        self.k = 0
        self.buffer = None
        self.accepted = []

    def solve(self, state, *args, **kwargs):
        eng = self.eng
        q = self.script[self.k % len(self.script)]
        n = self.k
        self.k += 1
        self.neval += 1
        self.log.append(('solve', SP(state), kwargs.get('tol'), kwargs.get('learn_solution')))
        if self.k > 60:
            raise StepLimit('more than 60 inner solves')
        out = q['out']
        if out == 'raise':
            raise InnerError('scripted')
        if out == 'same':
            self.log.append(('ret', True, SP(state)))
            return (state if q['alias'] else copy.deepcopy(state)), True, 0
        if out == 'ok':
            r = copy.deepcopy(self.target)
            m = Snap(state.funcs[0]).n
            for i in range(len(r.funcs)):
                if m > Snap(r.funcs[i]).n:
                    r.funcs[i].prolong(m)
                r.funcs[i] += q['err']
            if q['short']:
                r.simplify()
            if self.reuse:
                # the solver keeps one state and works in it
                if self.buffer is None:
                    self.buffer = r
                else:
                    for i in range(len(r.funcs)):
                        self.buffer.funcs[i].onefun = r.funcs[i].onefun
                    for i in range(len(r.reals)):
                        self.buffer.reals[i].value = r.reals[i].value
                r = self.buffer
            self.log.append(('ret', True, SP(r)))
            return r, True, 3
        if out == 'fail-same':
            r = copy.deepcopy(state)
        elif out == 'fail-far':
            r = copy.deepcopy(self.target)
            for f in r.funcs:
                f += 50.0
        elif out == 'fail-garbage':
            r = copy.deepcopy(state)
            for f in r.funcs:
                f *= -7.0
                f += 1.0
            for p in r.reals:
                p.value = p.value + 3.0
        else:
            r = copy.deepcopy(state)
            for f in r.funcs:
                f.onefun.coeffs[0, 0] = np.nan
        self.log.append(('ret', False, None if out == 'fail-nan' else SP(r)))
        return r, False, 10


def dist(A, B):
    """norm of the difference of two states, by quadrature"""
    t = 0.0
    for i, (S, T) in enumerate(zip(A.funcs, B.funcs)):
        if S.kind == 'trig':
            n = 2 * max(S.n, T.n) + 9
            z, w = -1 + 2.0 * np.arange(n) / n, np.full(n, 2.0 / n)
        else:
            z, w = np.polynomial.legendre.leggauss(min(max(S.n, T.n) + 2, 200))
        t += A.weights[i] * float(np.sum(w[:, None] * np.abs(S.ev(z) - T.ev(z)) ** 2)) * (S.dom[1] - S.dom[0]) / 2
    for i, (a, b) in enumerate(zip(A.reals, B.reals), start=len(A.funcs)):
        t += A.weights[i] * abs(a[1] - b[1]) ** 2
    return math.sqrt(t)


def near(A, B, tol):
    return A.kind == B.kind and A.reals == B.reals and all(
        np.max(np.abs(x - y)) <= tol for x, y in zip(A.ev, B.ev))


class AdaptEngine(Engine):
    shrink_keys = ('ops',)
    preload = ['funpy.colloc.adapt', 'funpy.vectorspaces']
    measure = 'distinct (sequence of inner outcomes, ladder length, bounds, where it stopped, flag) situations'
    rule = ('one run is a seeded sequence of 1-4 solves by one driver, every inner solve scripted (accepted with a given error, refused '
            'with a given kind of garbage, exception), some interrupted at a source line; distinct = distinct digests')
    real = ['funpy.colloc.adapt', 'funpy.vectorspaces', 'funpy.fun', 'funpy.cheb', 'funpy.trig']
    stub = ['inner nonlinear solver (scripted)', 'discretised system (records resolutions)']
    assumptions = ['inner solvers leave the state they are given alone (that is P10)']
    quick_runs = 12000
    thorough_runs = 100000
    quick_wall = 60
    must_hit = ['op:solve', 'fault:tick', 'fault:inner-failure', 'fault:inner-exception', 'fault:nan-state', 'probe:converged', 'probe:gave-up',
                'probe:exhausted-success', 'probe:exhausted-failure', 'probe:reused-driver', 'probe:reused-buffer', 'probe:recovered-after-failure']

    def __init__(self, prop):
        self.prop = prop

    # ------------------------------------------------------------------------------------------- generation
    def gen(self, rng, idx, tier):
        cfg = dict(basis=rng.choice(['cheb', 'trig']), dom=list(rng.choice([list(d) for d in DOMS])), m=rng.choice([1, 1, 2]),
                   n_min=rng.choice([1, 2, 3, 5]), n_max=rng.choice([5, 5, 6, 7, 8]))
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            style = rng.choice(['conv', 'conv', 'mixed', 'mixed', 'fails', 'latefail', 'stall'])
            script = []
            e = 10.0 ** rng.uniform(-3, 0)
            for k in range(10):
                w = dict(conv=[8, .2, 0, 0, 0, 0, 0], mixed=[4, .5, 1, 1, .6, 1, .2], fails=[.5, 0, 3, 1, 1, 2, 0],
                         latefail=[8 if k < 2 else 1, 0, 2, 1, 1, 2, .1], stall=[8, 0, .5, 0, 0, .3, 0])[style]
                o = rng.choices(OUT, w)[0]
                script.append(dict(out=o, err=e if rng.random() < .8 else 0.0, short=rng.random() < .15, alias=rng.random() < .5))
                e = rng.choice([e * 10.0 ** -rng.uniform(1, 5), e * .5]) if style != 'stall' else rng.choice([.3, .1, .9])
            op = dict(op='solve', kind=rng.choice(['defl', 'cont', 'tpc', 'tp']), s=rng.randrange(1 << 30), n=rng.choice([1, 2, 5, 9, 16, 17, 33, 40]), script=script,
                      eps=rng.choice([1e-8, 1e-8, 1e-6, 1e-3, 1e-11]), up=rng.choice([1, 2, 3, 4, 6, 12]), mf=rng.choice([1, 2, 3, 3, 4, 9]), reuse=rng.random() < .3,
                      again=rng.random() < .4, far=rng.random() < .5, kw=rng.random() < .8)
            if rng.random() < .25:
                op['fault'] = dict(exc=rng.choice(list(EXC)), at=int(math.exp(rng.uniform(0, math.log(2500)))))
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            for k, v in (('fault', None), ('reuse', False), ('again', False), ('n', 5), ('kind', 'defl')):
                if op.get(k) not in (v, None):
                    o2 = [dict(o) for o in plan['ops']]
                    o2[i][k] = v
                    yield dict(plan, ops=o2)
            for j in range(len(op['script'])):
                for alt in (dict(out='ok', err=0.0, short=False, alias=False), dict(op['script'][j], out='fail-same')):
                    if op['script'][j] != alt and op['script'][j]['out'] != alt['out']:
                        o2 = [dict(o) for o in plan['ops']]
                        o2[i]['script'] = [dict(x) for x in op['script']]
                        o2[i]['script'][j] = alt
                        yield dict(plan, ops=o2)

    # ------------------------------------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        np.random.seed(7)
        import funpy.vectorspaces as vs
        from funpy.fun import Fun
        from funpy.colloc.adapt import SolverAdaptive
        self.vs, self.Fun, self.cfg, self.rec, self.mon = vs, Fun, plan['cfg'], rec, monitor()
        cfg = plan['cfg']
        self.driver = None
        self.SA = SolverAdaptive
        self.earlier = []
        for op in plan['ops']:
            rec.simtime += 1
            self.solve(op)
            if rec.violations:
                return
            for s, p in self.earlier:
                d = p.diff(SP(s))
                if d:
                    return rec.violate('independence', 'solve', 'a state returned by an earlier solve changed: %s' % d)

    def state(self, op, z, scale=1.0):
        cfg, vs = self.cfg, self.vs

        def fn(y, n):
            c = series(n, cfg['m'], (op['s'] + z + y) % (1 << 30), cfg['basis'], False, .5)
            return self.Fun(coeffs=np.asfortranarray(c * scale), domain=list(cfg['dom']), type=cfg['basis'], simplify=False)
        P = [vs.Parameter(**{nm: round(.5 + i + .1 * z, 3)}) for i, nm in enumerate(PNAMES[1:3])]
        u = fn(0, op['n'])
        k = op['kind']
        if k == 'defl':
            return vs.DeflationState(u=u)
        if k == 'cont':
            return vs.ContinuationState(a=P[0], u=u)
        if k == 'tpc':
            return vs.TwoParContState(p1=P[0], p2=P[1], u=u)
        return vs.TwoParameterState(p1=P[0], p2=P[1], u=u, phi=fn(1, op['n']))

    def attempt(self, drv, inner, u0, op, fault):
        """('ok', result) | ('fault', None) | ('raise', exc)"""
        rec = self.rec
        drv.nw = inner
        kw = dict(eps=op['eps'], up_steps=op['up'], max_fail_steps=op['mf']) if op['kw'] else {}
        self.mon.start(limit=LIMIT, at=fault['at'] if fault else None, exc=EXC[fault['exc']]('injected') if fault else None)
        try:
            return 'ok', drv.solve(u0, **kw)
        except StepLimit as e:
            rec.violate('no-progress', 'solve', str(e))
            return 'stuck', None
        except BaseException as e:
            if fault and self.mon.fired is not None and not isinstance(e, InnerError):
                return 'fault', e
            return 'raise', e
        finally:
            self.mon.stop()

    def solve(self, op):
        rec, cfg = self.rec, self.cfg
        rec.count('op:solve')
        u0 = self.state(op, 0, scale=3.0 if op['far'] else 1.0)
        target = self.state(op, 1000 if op['far'] else 0)
        if not op['far']:
            for f in u0.funcs:
                f += 1e-3
        P0 = SP(u0)
        scripts = lambda: Inner(self, op['script'], target, op['reuse'])
        if self.driver is None:
            self.driver = self.SA(scripts(), n_min=cfg['n_min'], n_max=cfg['n_max'])
        else:
            rec.count('probe:reused-driver')
        if op['reuse']:
            rec.count('probe:reused-buffer')
        fault = op.get('fault')
        inner = scripts()
        st, r = self.attempt(self.driver, inner, u0, op, fault)
        if rec.violations:
            return
        d = P0.diff(SP(u0))
        if d:
            return rec.violate('guess', 'solve', "the caller's state changed: %s" % d)
        if st == 'fault':
            rec.count('fault:tick')
            rec.event('interrupted', self.mon.fired[0])
            inner = scripts()
            st, r = self.attempt(self.driver, inner, u0, op, None)
            if rec.violations:
                return
        self.judge(op, inner, P0, st, r)
        if rec.violations:
            return
        d = P0.diff(SP(u0))
        if d:
            return rec.violate('guess', 'solve', "the caller's state changed: %s" % d)
        if op['again']:
            fresh = self.SA(None, n_min=cfg['n_min'], n_max=cfg['n_max'])
            st2, r2 = self.attempt(fresh, scripts(), u0, op, None)
            rec.count('check:fresh-driver')
            if st2 != st or (st == 'ok' and (bool(r2[1]) != bool(r[1]) or r2[2] != r[2] or SP(r[0]).diff(SP(r2[0])))):
                return rec.violate('history', 'solve', 'the used driver and a fresh one differ')
        if st == 'ok':
            self.earlier.append((r[0], SP(r[0])))

    def judge(self, op, inner, P0, st, r):
        rec, cfg = self.rec, self.cfg
        log = inner.log
        discs = [x[1] for x in log if x[0] == 'disc']
        solves = [x for x in log if x[0] == 'solve']
        rets = [x for x in log if x[0] == 'ret']
        outs = [inner.script[i % len(inner.script)]['out'] for i in range(len(solves))]
        eps, up, mf = (op['eps'], op['up'], op['mf']) if op['kw'] else (1e-8, 12, 3)
        lower = P0.funcs[0].n
        if op['kind'] == 'tp':
            lower = sum(S.n for S in P0.funcs)          # that is what the shape of such a state says
        p2 = 2
        while p2 < lower:
            p2 *= 2
        upper = 2 ** (int(round(math.log2(p2))) + max(up - 1, 0))
        top = max(lower, min(upper, 1 + 2 ** cfg['n_max']))
        seq = tuple(o for o in outs)
        rec.event('solve', seq, tuple(discs), st)
        for o in outs:
            if o == 'raise':
                rec.count('fault:inner-exception')
            elif o.startswith('fail'):
                rec.count('fault:inner-failure')
            if o == 'fail-nan':
                rec.count('fault:nan-state')
        V = lambda oracle, msg: rec.violate(oracle, 'solve', '%s [inner outcomes %s, resolutions %s]' % (msg, '/'.join(outs), discs))
        # -- resolutions
        rec.count('check:resolutions')
        if len(discs) != len(solves):
            return V('ladder', '%d resolutions set for %d solves' % (len(discs), len(solves)))
        if any(b <= a for a, b in zip(discs, discs[1:])):
            return V('ladder', 'resolutions do not increase')
        if any(n < lower or n > top for n in discs):
            return V('ladder', 'resolution outside [%d, %d]' % (lower, top))
        if len(solves) > cfg['n_max'] + 1:
            return V('ladder', 'more inner solves than resolutions')
        # -- guesses: the last accepted state, at the new resolution
        cur = P0
        flags = [x[1] for x in rets]
        tolg = lambda A: 1e-7 * (1e-3 + A.scale())
        lastn = None
        for k, s in enumerate(solves):
            rec.count('check:guess')
            if any(S.n != discs[k] for S in s[1].funcs):
                return V('guess', 'solve %d got a state with %s samples at resolution %d' % (k, [S.n for S in s[1].funcs], discs[k]))
            if not near(s[1], cur, tolg(cur) + (tolg(rets[k - 1][2]) if k and flags[k - 1] else 0)):
                bad = [j for j in range(k) if rets[j][2] is not None and near(s[1], rets[j][2], tolg(rets[j][2]))]
                return V('guess', 'solve %d did not start from the last accepted state%s' % (k, ' but from the answer of solve %d' % bad[-1] if bad else ''))
            if k < len(rets) and flags[k]:
                cur = rets[k][2]
        # -- exceptions of the inner solver reach the caller, and only those
        if outs and outs[-1] == 'raise':
            if st != 'raise' or not isinstance(r, InnerError):
                return V('swallowed', 'the exception of the inner solver did not reach the caller')
            return
        if st == 'raise':
            return V('error', '%s: %s' % (type(r).__name__, r))
        state, ok, it = r[0], bool(r[1]), r[2]
        R = SP(state)
        acc = [x[2] for x in rets if x[1]]
        rec.count('check:outcome')
        if not solves:
            return V('outcome', 'no inner solve at all')
        if ok != flags[-1]:
            return V('outcome', 'success reported as %s, the last inner solve said %s' % (ok, flags[-1]))
        if any(flags[i + 1] and not flags[i] for i in range(len(flags) - 1)):
            rec.count('probe:recovered-after-failure')
        want = rets[-1][2].kind if rets[-1][2] is not None else P0.kind
        if R.kind != want:
            return V('outcome', 'returned a %s' % R.kind)
        agreed = len(flags) > 1 and flags[-1] and dist(solves[-1][1], rets[-1][2]) < eps * (1 + 1e-6) + 1e-12
        if ok:
            last = rets[-1][2]
            if not agreed and discs[-1] != top:
                return V('stop', 'success at resolution %d of %d although the last two states differ by %.3g (tolerance %.1g)' % (
                    discs[-1], top, dist(solves[-1][1], last), eps))
            if not near(R, last, tolg(last)) and not dist(R, last) < eps * (1 + 1e-6) + 1e-12:
                return V('outcome', 'the returned state is %.3g away from the accepted one' % dist(R, last))
            rec.count('probe:converged' if agreed else 'probe:exhausted-success')
        else:
            if discs[-1] != top and not (len(flags) >= mf and not any(flags)):
                return V('stop', 'gave up after %d solves at resolution %d of %d (limit %d)' % (len(flags), discs[-1], top, mf))
            base = acc[-1] if acc else P0
            if not near(R, base, tolg(base)):
                return V('outcome', 'failure, but the returned state is neither the last accepted one nor the starting one')
            rec.count('probe:gave-up' if discs[-1] != top else 'probe:exhausted-failure')
        # -- it goes on exactly as long as it has to
        for k in range(1, len(flags) - 1):
            if flags[k] and dist(solves[k][1], rets[k][2]) < eps * (1 - 1e-6) - 1e-12:
                return V('stop', 'did not stop after solve %d, which agreed to %.3g' % (k, dist(solves[k][1], rets[k][2])))
        if len(flags) > mf and not any(flags):
            return V('stop', '%d failures in a row from the start, limit %d' % (len(flags), mf))
        rec.state((seq, len(discs), ok, discs[-1] == top, up, mf, op['kind']))
