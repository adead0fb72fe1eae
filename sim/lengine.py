"""P16: histories of questions, replacements and failures put to factored and bordered linear solvers."""
import copy
import math
import warnings

import numpy as np
import scipy.sparse as sps

from .core import Engine
from .fengine import EXC
from .hooks import monitor, StepLimit

LIMIT = 400000
CONDMAX = 3e3
RTOL = 1e-8
STYLES = ['plain', 'plain', 'readonly', 'strided', 'int']
QUESTIONS = dict(
    qr=['solve', 'solve', 'solve_adj', 'solve_adj', 'det', 'det_sign', 'null', 'particular', 'particular_adj', 'unsolvable'],
    bem=['solve', 'solve', 'solve', 'solve_adj', 'solve_adj', 'solve_null', 'solve_null_adj', 'solve_zero', 'min_norm', 'det'],
    bemw=['solve', 'solve', 'solve', 'solve_adj', 'solve_adj', 'solve_null', 'solve_null_adj', 'solve_zero', 'solve_zero_adj', 'min_norm'],
    bmat=['solve', 'solve', 'solve_null', 'mat', 'null'],
    chol=['solve', 'solve', 'solve', 'det', 'tangent', 'rank', 'deepcopy'],
    exact=['solve'],
    schur=['solve', 'solve', 'tangent'],
)
NEW = ['qr', 'bem', 'bem', 'bem', 'bemw', 'bemw', 'bmat', 'chol', 'chol', 'exact', 'schur', 'nest', 'twin']
FREE = ['nullvec', 'nullvec', 'lucp', 'qrfun', 'gbit', 'gbit']


def rs(s):
    return np.random.RandomState(s % (1 << 31))


def style(x, how):
    x = np.asarray(x, float)
    if how == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    elif how == 'strided':
        y = np.full(x.shape[:-1] + (2 * x.shape[-1],), 1e99)
        y[..., ::2] = x
        x = y[..., ::2]
    elif how == 'int':
        return np.round(3 * x).astype(int)
    return x


def orth(r, n):
    return np.linalg.qr(r.randn(n, n))[0]


def cond(M):
    s = np.linalg.svd(M, compute_uv=False)
    return np.inf if s[-1] == 0 else s[0] / s[-1]


def lead(M, n):
    """worst condition of the leading blocks a block elimination works through"""
    return max(cond(M[:k, :k]) for k in range(n, M.shape[0] + 1))


class SolverDown(Exception):
    """the core solver failed"""


class Core:
    """stands for the core solver; a call may fail on schedule, everything else is the real one"""
    def __init__(self, world, obj):
        self.__dict__.update(_w=world, _o=obj)

    def __getattr__(self, name):
        v = getattr(self.__dict__['_o'], name)
        if name not in ('solve', 'solve_adj', 'null', 'particular', 'particular_adj'):
            return v
        w = self.__dict__['_w']

        def call(*a):
            w.calls += 1
            if w.failat is not None and w.calls == w.failat:
                w.failat, w.failed = None, True
                raise SolverDown('call %d of the core solver' % w.calls)
            return v(*a)
        return call


class Ent:
    """one live solver and the matrix it stands for"""
    def __init__(self, kind, obj, **kw):
        self.kind, self.obj, self.updates, self.asked, self.stale, self.failed = kind, obj, 0, 0, False, 0
        self.__dict__.update(kw)

    def M(self):
        if self.kind in ('qr', 'chol', 'exact'):
            return self.A
        if self.kind in ('bem', 'bmat'):
            A = self.core.M() if isinstance(self.core, Ent) else self.core['A']
            return np.block([[A, self.c[:, None]], [self.b[None], np.array([[self.d]])]])
        A = self.core['A']
        n, m = len(A), len(self.bs)
        M = np.zeros((n + m, n + m))
        M[:n, :n] = A
        for k in range(m):
            M[n + k, :n + k], M[:n + k, n + k], M[n + k, n + k] = self.bs[k], self.cs[k], self.ds[k]
        return M


class World:
    def __init__(self):
        self.cores, self.ents, self.kept = [], [], []
        self.calls, self.failat, self.failed = 0, None, False

    def keep(self, *arrs):
        """arguments handed over: none may ever change"""
        for a in arrs:
            self.kept.append((a, self.raw(a)))
        return arrs[0] if len(arrs) == 1 else arrs

    @staticmethod
    def raw(a):
        if sps.issparse(a):
            return (a.data.tobytes(), a.indices.tobytes(), a.indptr.tobytes())
        if isinstance(a, (list, tuple)):
            return [(id(x), World.raw(x)) for x in a]
        if isinstance(a, np.ndarray):
            return a.tobytes()
        return repr(a)

    def damaged(self):
        return any(self.raw(a) != r for a, r in self.kept)


class LinEngine(Engine):
    preload = ['funpy.linalg', 'funpy.linalg.nullspace', 'funpy.linalg.lucp', 'funpy.vectorspaces', 'sparseqr']
    measure = 'distinct (solver, core, question, replacements, earlier failures, fault, argument style) situations'
    rule = ('one run is one seeded history of 12-40 operations over live solvers that share cores: factored and bordered solvers are '
            'built, asked, given new rows and columns, interrupted, asked again; distinct = distinct digests of operations, answers and outcomes')
    real = ['funpy.linalg', 'funpy.vectorspaces', 'funpy.fun', 'numpy', 'scipy', 'sparseqr']
    stub = ['a pass-through in front of the core solver that fails on schedule']
    assumptions = ['matrices, and the leading blocks block elimination works through, have condition at most 3e3, except a core that is '
                   'nearly or exactly singular by one dimension inside a regular bordered matrix',
                   'real data; arrays handed to a bordered solver are not changed afterwards']
    quick_runs = 16000
    thorough_runs = 200000
    quick_wall = 60
    must_hit = ['op:' + k for k in set(NEW)] + ['ask:%s:%s' % (k, q) for k, v in QUESTIONS.items() for q in v] + [
        'op:row', 'op:col', 'op:prepare', 'op:poke', 'op:nullvec', 'op:lucp', 'op:qrfun', 'op:gbit', 'fault:core', 'fault:tick',
        'probe:failed-update', 'probe:singular-core', 'probe:near-singular-core', 'probe:shared-core', 'probe:repeat']

    def __init__(self, prop):
        self.prop = prop

    # ---------------------------------------------------------------- plans
    def gen(self, rng, idx, tier):
        ops = [dict(op='new', kind=rng.choice(NEW[:12]), s=rng.getrandbits(30), t=rng.getrandbits(20)) for _ in range(rng.randint(1, 2))]
        for _ in range(rng.randint(10, 34)):
            x = rng.random()
            s, t = rng.getrandbits(30), rng.getrandbits(20)
            f = None
            if rng.random() < .3:
                if rng.random() < .5:
                    f = dict(kind='core', k=rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8]))
                else:
                    f = dict(kind='tick', k=int(2 ** rng.uniform(0, 7.5)), exc=rng.choice(list(EXC)))
            if x < .14:
                op = dict(op='new', kind=rng.choice(NEW), s=s, t=t, style=rng.choice(STYLES), fault=f if rng.random() < .4 else None)
            elif x < .58:
                op = dict(op='ask', s=s, t=t, q=rng.getrandbits(16), style=rng.choice(STYLES), poke=rng.random() < .5, fault=f,
                          twice=rng.random() < .2)
            elif x < .86:
                op = dict(op=rng.choice(['row', 'col']), s=s, t=t, style=rng.choice(STYLES), fault=f, only=rng.random() < .25)
            elif x < .90:
                op = dict(op='prepare', t=t, fault=f)
            elif x < .97:
                op = dict(op=rng.choice(FREE), s=s, t=t, fault=f if rng.random() < .3 else None)
            else:
                op = dict(op='drop', t=t)
            ops.append(op)
        return dict(ops=ops, big=tier != 'quick')

    def simpler(self, plan):
        for i, op in enumerate(plan['ops']):
            for k, v in (('fault', None), ('style', 'plain'), ('poke', False), ('twice', False)):
                if op.get(k) not in (None, v):
                    q = dict(plan)
                    q['ops'] = [dict(o) for o in plan['ops']]
                    q['ops'][i][k] = v
                    yield q

    # ---------------------------------------------------------------- execution
    def run(self, plan, rec):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        from funpy import linalg
        self.L = linalg
        self.mon = monitor()
        self.W, self.rec = World(), rec
        self.big = plan.get('big')
        for op in plan['ops']:
            try:
                getattr(self, 'op_' + op['op'])(op)
            except Stop:
                return
            if self.W.damaged():
                rec.violate('argument', self.last, 'an array or list handed to a solver was changed')
                return

    def call(self, op, f, limit=LIMIT):
        """runs f with the operation's fault; ('ok', value) or ('raise', exception) or ('fault', exception)"""
        fa = op.get('fault') or {}
        W = self.W
        W.calls, W.failed = 0, False
        W.failat = fa['k'] if fa.get('kind') == 'core' else None
        kw = {}
        if fa.get('kind') == 'tick':
            kw = dict(at=fa['k'], exc=EXC[fa['exc']]('injected'))
        self.mon.start(limit=limit, **kw)
        try:
            out = ('ok', f())
        except BaseException as e:
            out = ('raise', e)
        finally:
            self.mon.stop()
            W.failat = None
        fired = self.mon.fired
        if W.failed:
            self.rec.count('fault:core')
        if fired:
            self.rec.count('fault:tick')
        self.hit = bool(W.failed or fired)
        if out[0] == 'raise':
            if isinstance(out[1], StepLimit):
                self.bad('progress', 'step budget exceeded')
            if self.hit:
                if W.failed and not isinstance(out[1], SolverDown):
                    # another exception on the way is still the caller's notice
                    self.rec.count('probe:other-exception')
                return ('fault', out[1])
        return out

    def bad(self, oracle, msg):
        self.rec.violate(oracle, self.last, msg)
        raise Stop()

    def pick(self, t, kinds=None):
        es = [e for e in self.W.ents if kinds is None or e.kind in kinds]
        return es[t % len(es)] if es else None

    # ---------------------------------------------------------------- making solvers
    def core(self, s, t):
        W = self.W
        r = rs(s)
        if W.cores and r.rand() < .55:
            return W.cores[t % len(W.cores)]
        n = r.randint(2, 9 if self.big else 7)
        regime = ['good', 'good', 'good', 'near', 'sing'][r.randint(5)]
        sv = r.uniform(.6, 3, n)
        if regime == 'sing':
            sv[-1] = 0
        elif regime == 'near':
            sv[-1] = 10.0 ** -r.randint(3, 13)
        U, V = orth(r, n), orth(r, n)
        A = U @ np.diag(sv) @ V.T
        scale = 1.0
        if regime == 'good' and r.rand() < .3:
            scale = 10.0 ** r.randint(-6, 7)
        A = A * scale
        form = ['C', 'F', 'csr', 'csc', 'readonly'][r.randint(5)]
        if regime == 'good' and scale == 1.0 and r.rand() < .15:
            B = np.round(3 * A)
            if cond(B) < 300:
                A, form = B, 'int'
        if regime == 'sing' and r.rand() < .3:     # exactly singular: two equal rows
            A = A.copy()
            A[-1] = A[0]
            u, sv, v = np.linalg.svd(A)
            if sv[0] / sv[-2] > 50:
                return None
            U, V = u, v.T
        arg = dict(C=lambda: A.copy(), F=lambda: np.asfortranarray(A), csr=lambda: sps.csr_matrix(A), csc=lambda: sps.csc_matrix(A),
                   int=lambda: A.astype(int), readonly=lambda: style(A, 'readonly'))[form]()
        W.keep(arg)
        tol = {'sing': 1e-9}.get(regime, np.finfo(float).eps * min(1.0, scale))
        self.last = 'new:qr'
        st, q = self.call({}, lambda: self.L.QR(arg, tol=tol))
        if st != 'ok':
            self.bad('error', 'QR: %r' % q)
        c = dict(A=A, arg=arg, regime=regime, scale=scale, form=form, qr=q, null=(V[:, -1], U[:, -1]), users=0, n=n)
        if bool(q.is_singular) != (regime == 'sing'):
            if regime == 'near':
                return None
            self.bad('singular', 'a matrix with smallest singular value %.1e was taken for %s' % (
                np.linalg.svd(A, compute_uv=False)[-1], 'singular' if q.is_singular else 'regular'))
        W.cores.append(c)
        return c

    def borders(self, r, c, n, k):
        """a row and a column of length n and a corner, scaled like the core"""
        b, cc, d = r.randn(n), r.randn(n), r.randn()
        if c['regime'] != 'good' and k == 0:
            b, cc = b * .5 + 1.5 * c['null'][0] * np.sign(b @ c['null'][0] or 1), cc * .5 + 1.5 * c['null'][1] * np.sign(cc @ c['null'][1] or 1)
        return b, cc, d

    def op_new(self, op):
        W, L, rec = self.W, self.L, self.rec
        kind, r = op['kind'], rs(op['s'] + 1)
        how = op.get('style', 'plain')
        self.last = 'new:' + kind
        rec.count('op:' + kind)
        if len(W.ents) > 9:
            W.ents.pop(op['t'] % len(W.ents))
        if kind == 'schur':
            return self.new_schur(op, r)
        if kind == 'chol':
            return self.new_chol(op, r)
        if kind == 'twin':
            e = self.pick(op['t'], ['bem', 'bemw'])
            if e is None or isinstance(e.core, Ent) or e.stale or e.updates:
                return
            if e.kind == 'bem':
                a = e.args
                st, o = self.call(op, lambda: L.BEM(Core(W, e.core['qr']), *a))
                return self.made(op, st, o, 'bem', core=e.core, b=e.b, c=e.c, d=e.d, args=a)
            a = e.args
            st, o = self.call(op, lambda: L.BEMW(Core(W, e.core['qr']), *a))
            return self.made(op, st, o, 'bemw', core=e.core, bs=list(e.bs), cs=list(e.cs), ds=list(e.ds), args=a)
        if kind == 'nest':
            e = self.pick(op['t'], ['bem'])
            if e is None or e.stale or (e.core['regime'] if isinstance(e.core, dict) else 'good') == 'sing' or isinstance(e.core, Ent):
                return
            A = e.M()
            n = len(A)
            for _ in range(6):
                b, c, d = [x * e.core['scale'] for x in (r.randn(n), r.randn(n), r.randn())]
                if lead(np.block([[A, c[:, None]], [b[None], np.array([[d]])]]), n) < CONDMAX:
                    break
            else:
                return
            W.keep(b, c)
            st, o = self.call(op, lambda: L.BEM(Core(W, e.obj), b, c, d))
            return self.made(op, st, o, 'bem', core=e, b=b, c=c, d=d, args=(b, c, d))
        c = self.core(op['s'], op['t'])
        if c is None:
            return
        self.last = 'new:' + kind
        A, n = c['A'], c['n']
        if kind == 'qr':
            W.ents.append(Ent('qr', c['qr'], A=A, core=c))
            return
        if kind == 'exact':
            if c['regime'] == 'sing' or c['regime'] == 'near':
                return
            meth = ['lu', 'qr'][r.randint(2)]
            arg = c['arg']
            W.keep(arg)
            st, o = self.call(op, lambda: L.ExactLinearSolver(arg.astype(float) if c['form'] == 'int' else arg, method=meth))
            return self.made(op, st, o, 'exact', A=A, core=c)
        if kind == 'bemw':
            if c['regime'] == 'sing':
                return
            m = r.randint(1, 5)
            M = np.zeros((n + m, n + m))
            M[:n, :n] = A
            bs, cs, ds = [], [], []
            for k in range(m):
                for _ in range(8):
                    b, cc, d = self.borders(r, c, n + k, k)
                    if how == 'int' and c['scale'] == 1.0:
                        b, cc, d = np.round(2 * b), np.round(2 * cc), int(np.round(2 * d))
                    b, cc, d = b * c['scale'], cc * c['scale'], d * c['scale']
                    M[n + k, :n + k], M[:n + k, n + k], M[n + k, n + k] = b, cc, d
                    if cond(M[:n + k + 1, :n + k + 1]) < CONDMAX:
                        break
                else:
                    return
                bs.append(b), cs.append(cc), ds.append(d)
            as_int = how == 'int' and c['scale'] == 1.0
            h = (lambda x: x.astype(int)) if as_int else (lambda x: style(x, how if how != 'int' else 'plain'))
            a = ([h(x) for x in bs], [h(x) for x in cs], list(ds))
            if r.rand() < .3:
                a = tuple(tuple(x) for x in a)
            W.keep(*a)
            st, o = self.call(op, lambda: L.BEMW(Core(W, c['qr']), *a))
            return self.made(op, st, o, 'bemw', core=c, bs=bs, cs=cs, ds=ds, args=a)
        # bem, bmat
        if kind == 'bmat' and c['regime'] == 'near':
            return
        for _ in range(8):
            b, cc, d = self.borders(r, c, n, 0)
            if how == 'int' and c['scale'] == 1.0:
                b, cc, d = np.round(3 * b), np.round(3 * cc), int(np.round(3 * d))
            b, cc, d = b * c['scale'], cc * c['scale'], d * c['scale']
            M = np.block([[A, cc[:, None]], [b[None], np.array([[d]])]])
            if cond(M) < CONDMAX:
                break
        else:
            return
        as_int = how == 'int' and c['scale'] == 1.0
        h = (lambda x: x.astype(int)) if as_int else (lambda x: style(x, how if how != 'int' else 'plain'))
        args = (h(b), h(cc), d)
        W.keep(*args)
        if kind == 'bmat':
            tol = 1e-9 * c['scale']
            if c['form'] in ('csr', 'csc'):
                Aarg = A.copy()
                W.keep(Aarg)
            else:
                Aarg = c['arg']
            st, o = self.call(op, lambda: L.BMatrix(Aarg, *args, tol=tol))
        else:
            st, o = self.call(op, lambda: L.BEM(Core(W, c['qr']), *args))
        self.made(op, st, o, kind, core=c, b=b, c=cc, d=d, args=args)

    def made(self, op, st, o, kind, **kw):
        if st == 'raise':
            self.bad('error', 'construction: %r' % o)
        self.rec.event('new', kind, st)
        if st != 'ok':
            return
        e = Ent(kind, o, **kw)
        c = kw.get('core')
        if isinstance(c, dict):
            c['users'] += 1
            if c['users'] > 1:
                self.rec.count('probe:shared-core')
            if c['regime'] == 'sing':
                self.rec.count('probe:singular-core')
            if c['regime'] == 'near':
                self.rec.count('probe:near-singular-core')
        self.W.ents.append(e)

    def new_chol(self, op, r):
        m = r.randint(2, 8)
        n = m + [0, 0, 0, 1, 1, 2, 3][r.randint(7)]
        k = m
        if n == m and r.rand() < .4:
            k = max(1, m - r.randint(1, 4))
        sv = np.zeros(m)
        sv[:k] = r.uniform(.6, 3, k)
        A = orth(r, m) @ np.diag(sv) @ orth(r, n)[:m] * (10.0 ** r.randint(-6, 7) if r.rand() < .5 else 1.0)
        arg = [A.copy(), np.asfortranarray(A), style(A, 'readonly'), style(A, 'strided')][r.randint(4)]
        if n == m == k and r.rand() < .25:
            arg = sps.csc_matrix(A)
        self.W.keep(arg)
        st, o = self.call(op, lambda: self.L.QRCholesky(arg))
        self.made(op, st, o, 'chol', A=A, rank=k, sparse=sps.issparse(arg), core=None)

    def new_schur(self, op, r):
        from funpy import Fun
        from funpy.vectorspaces import ContinuationState, Parameter
        n, m = r.randint(3, 8), r.randint(1, 3)
        N = n * m
        A = orth(r, N) @ np.diag(r.uniform(.6, 3, N)) @ orth(r, N)
        Fa = r.randn(N)
        dom = [-1, 1] if r.rand() < .5 else [0, 3]

        def fun(x):
            return Fun(coeffs=np.array(np.asarray(x).reshape((n, m), order='F'), order='F'), type='cheb', domain=dom)

        def state(u, a):
            return ContinuationState(a=Parameter(p=float(np.asarray(a).item())), u=u)
        pre = sps.diags(r.uniform(.5, 2, N)).tocsc() if r.rand() < .5 else None
        I = sps.eye(N).tocsc()
        As = sps.csc_matrix(A)
        # a tangent that is not far from the null vector of (A Fa)
        t0 = state(fun(r.randn(N) * .3 - np.linalg.solve(A, Fa)), 1.0)
        self.W.keep(As, Fa)
        coeffs = np.array(t0.u.coeffs, copy=True)
        st, o = self.call(op, lambda: self.L.LinearSolverNGSchur(As, Fa, t0, I, P=pre, to_function=fun, to_state=state))
        if not np.array_equal(coeffs, np.asarray(t0.u.coeffs)) or float(t0.a) != 1.0:
            self.bad('argument', 'the old tangent was changed')
        self.made(op, st, o, 'schur', A=A, Fa=Fa, n=n, m=m, dom=dom, core=None)

    # ---------------------------------------------------------------- questions
    def refresh(self, e):
        """a solver whose core was itself replaced is told so"""
        if isinstance(e.core, Ent) and e.core.kind == 'bem' and e.core.stale:
            self.refresh(e.core)
        if e.stale:
            st, o = self.call({}, e.obj.prepare)
            if st != 'ok':
                self.bad('error', 'prepare: %r' % o)
            e.stale = False

    def op_ask(self, op):
        e = self.pick(op['t'])
        if e is None:
            return
        self.refresh(e)
        qs = QUESTIONS[e.kind]
        q = qs[op['q'] % len(qs)]
        self.question(e, q, op)
        if op.get('fault') and self.hit or op.get('twice'):
            if op.get('twice') and not self.hit:
                self.rec.count('probe:repeat')
            self.question(e, q, dict(op, fault=None))

    def regime(self, e):
        c = e.core
        if isinstance(c, Ent):
            c = c.core
        return c['regime'] if c else 'good'

    def question(self, e, q, op):
        rec, W = self.rec, self.W
        r = rs(op['s'] + 7)
        self.last = 'ask:%s:%s' % (e.kind, q)
        if e.kind == 'schur':
            return self.ask_schur(e, q, op, r)
        M = e.M()
        N = M.shape[0]
        reg = self.regime(e)
        o = e.obj
        sc = 10.0 ** r.randint(-3, 4) if r.rand() < .3 else 1.0
        f = style(r.randn(N) * sc, op['style'] if sc == 1.0 or op['style'] != 'int' else 'plain')
        fv = np.array(f, float)
        arr = None                       # the argument, watched
        E = np.zeros(N)
        E[-1] = 1
        check = None
        if e.kind == 'qr':
            sing = reg == 'sing'
            if (q in ('null', 'particular', 'particular_adj', 'unsolvable')) != sing:
                q = {'null': 'solve', 'particular': 'solve', 'particular_adj': 'solve_adj', 'unsolvable': 'det'}.get(q, 'null')
            if reg == 'near' and q in ('det', 'det_sign', 'solve', 'solve_adj'):
                return
            self.last = 'ask:%s:%s' % (e.kind, q)
            phi0, psi0 = e.core['null']
            if q in ('solve', 'solve_adj'):
                arr = f
                check = lambda x: self.solves(M if q == 'solve' else M.T, x, fv)
                call = lambda: getattr(o, q)(f)
            elif q == 'null':
                check = lambda x: self.kernel(M, x[0]) or self.kernel(M.T, x[1])
                call = o.null
            elif q in ('particular', 'particular_adj'):
                B = M if q == 'particular' else M.T
                fv = B @ r.randn(N)
                f = style(fv, op['style'] if op['style'] != 'int' else 'plain')
                arr = f
                check = lambda x: self.satisfies(B, x, fv)
                call = lambda: getattr(o, q)(f)
            elif q == 'unsolvable':
                way = r.randint(2)
                fv = r.randn(N) + (psi0, phi0)[way] * 3
                if abs(fv @ (psi0, phi0)[way]) < .1:
                    return
                f = arr = fv.copy()
                check = lambda x: 'a system without solution was "solved"'
                call = lambda: (o.particular_adj if way else o.particular)(f)
            else:
                call = getattr(o, q)
                check = lambda x: self.det(M, x, q)
        elif e.kind in ('bem', 'bemw'):
            if q == 'det' and (reg != 'good'):
                q = 'solve'
            self.last = 'ask:%s:%s' % (e.kind, q)
            if q in ('solve', 'solve_adj'):
                arr = f
                call = lambda: getattr(o, q)(f)
                check = lambda x: self.solves(M if q == 'solve' else M.T, x, fv)
            elif q in ('solve_null', 'solve_null_adj'):
                call = getattr(o, q)
                check = lambda x: self.solves(M if q == 'solve_null' else M.T, x, E)
            elif q in ('solve_zero', 'solve_zero_adj'):
                f = arr = f[:-1]
                fv = np.r_[fv[:-1], 0]
                call = lambda: getattr(o, q)(f)
                check = lambda x: self.solves(M if q == 'solve_zero' else M.T, x, fv)
            elif q == 'min_norm':
                f = arr = f[:-1]
                fv = fv[:-1]
                if cond(M[:-1]) > CONDMAX:
                    return
                call = lambda: o.min_norm(f)
                check = lambda x: self.close(x, np.linalg.pinv(M[:-1]) @ fv)
            else:
                call = o.det
                check = lambda x: self.det(M, x, 'det')
        elif e.kind == 'bmat':
            if q == 'null' and reg != 'sing':
                q = 'solve'
            self.last = 'ask:%s:%s' % (e.kind, q)
            if q == 'solve':
                arr = f
                call = lambda: o.solve(f)
                check = lambda x: self.solves(M, x, fv)
            elif q == 'solve_null':
                call = o.solve_null
                check = lambda x: self.solves(M, x, E)
            elif q == 'null':
                call = o.null
                check = lambda x: self.kernel(M[:-1, :-1], x[0]) or self.kernel(M[:-1, :-1].T, x[1])
            else:
                call = lambda: o.mat
                check = lambda x: None if np.array_equal(np.asarray(x), M) else 'the matrix shown is another one'
        elif e.kind == 'chol':
            full = e.rank == M.shape[0] == M.shape[1]
            if q == 'det' and (not full or e.sparse) or q == 'tangent' and (M.shape[1] - e.rank != 1 or e.sparse):
                q = 'solve'
            self.last = 'ask:%s:%s' % (e.kind, q)
            if q == 'solve':
                arr = f
                P = np.linalg.pinv(M, rcond=1e-8)
                call = lambda: o.solve(f)
                check = lambda x: self.close(x, P @ fv, base=np.linalg.norm(P, 2) * np.linalg.norm(fv))
            elif q == 'det':
                call = o.det
                check = lambda x: self.det(M, x, 'det')
            elif q == 'tangent':
                call = o.tangent_vector
                check = lambda x: self.kernel(M, np.asarray(x).ravel(), unit=True)
            elif q == 'rank':
                call = lambda: (o.rank, o.is_singular)
                check = lambda x: None if (int(x[0]), bool(x[1])) == (e.rank, not full) else 'rank %s of a matrix of rank %d' % (x, e.rank)
            else:
                st, cp = self.call(op, lambda: copy.deepcopy(o))
                if st == 'raise':
                    self.bad('error', repr(cp))
                if st == 'ok' and len(W.ents) < 10:
                    W.ents.append(Ent('chol', cp, A=e.A, rank=e.rank, sparse=e.sparse, core=None))
                rec.count(self.last)
                return
        else:
            arr = f
            call = lambda: o.solve(f)

            def check(x):
                if not (isinstance(x, tuple) and len(x) == 2 and x[1] is True):
                    return 'answer is not (solution, True)'
                return self.solves(M, x[0], fv)
        raw = W.raw(arr) if arr is not None else None
        st, x = self.call(op, call)
        rec.count('op:ask')
        rec.count(self.last)
        e.asked += 1
        rec.event(self.last, st, reg, self.hit)
        rec.state((self.last, reg, min(e.updates, 3), min(e.failed, 2), (op.get('fault') or {}).get('kind'), st, op['style'], isinstance(e.core, Ent)))
        if arr is not None:
            rec.count('check:argument')
        if arr is not None and W.raw(arr) != raw:
            self.bad('argument', 'the right hand side was changed')
        if st == 'fault':
            return
        if st == 'raise':
            if q == 'unsolvable':
                return
            self.bad('error', '%s: %s%s' % (type(x).__name__, x, self.story(e)))
        parts = x if isinstance(x, tuple) else (x,)
        rec.count('check:answer')
        try:
            msg = check(x)
        except (ValueError, TypeError, AttributeError, IndexError) as ex:
            msg = 'unusable answer (%r)' % ex
        if msg:
            self.bad('answer', msg + self.story(e))
        for p in parts:
            if isinstance(p, np.ndarray):
                rec.data(np.round(p, 6) if np.all(np.abs(p) < 1e6) else np.zeros(1))
                if arr is not None and np.shares_memory(p, arr):
                    self.bad('shared', 'the answer is a view of the right hand side')
                if op.get('poke') and p.flags.writeable:
                    p[...] = 777.0
                    rec.count('op:poke')
        if e.failed and e.kind in ('bem', 'bemw'):
            rec.count('probe:asked-after-failed-update')

    def story(self, e):
        return ' [%d replacements%s, %s core]' % (e.updates, ', %d failed' % e.failed if e.failed else '', self.regime(e))

    # ---------------------------------------------------------------- oracles
    def close(self, x, x0, base=0.0):
        x = np.asarray(x, float)
        if x.shape != x0.shape:
            return 'shape %s instead of %s' % (x.shape, x0.shape)
        d = np.linalg.norm(x - x0)
        if not d <= RTOL * (np.linalg.norm(x0) + base):
            return 'off by %.2g (the solution has norm %.2g)' % (d, np.linalg.norm(x0))

    def solves(self, M, x, f):
        return self.close(x, np.linalg.solve(M, f), base=1e-3 * np.linalg.norm(f) / np.linalg.norm(M, 2))

    def satisfies(self, M, x, f):
        x = np.asarray(x, float)
        if x.shape != f.shape or not np.linalg.norm(M @ x - f) <= 1e-7 * (np.linalg.norm(M, 2) * np.linalg.norm(x) + np.linalg.norm(f)):
            return 'does not solve the system'

    def kernel(self, M, x, unit=False):
        x = np.asarray(x, float)
        n = np.linalg.norm(x)
        if x.shape != (M.shape[1],) or not n > 0 or not np.linalg.norm(M @ x) <= 1e-7 * np.linalg.norm(M, 2) * n:
            return 'not a null vector'
        if unit and abs(n - 1) > 1e-8:
            return 'not of unit length'

    def det(self, M, x, q):
        s, l = np.linalg.slogdet(M)
        x = float(x)
        if np.sign(x) != s:
            return 'the determinant has sign %g' % s
        if q == 'det' and abs(math.log(abs(x)) - l) > 1e-7:
            return 'determinant %.6g instead of %.6g' % (x, s * math.exp(l))

    def ask_schur(self, e, q, op, r):
        from .model import Snap
        from .vengine import gram
        rec, W = self.rec, self.W
        N = len(e.A)
        S = lambda s: (Snap(s.u), float(np.real(np.asarray(s.a).item() if not hasattr(s.a, 'value') else s.a.value)))
        if q == 'solve':
            f = style(r.randn(N), op['style'])
            W.keep(f)
            call = lambda: e.obj.solve(np.asarray(f, float) if op['style'] == 'int' else f)
        else:
            call = e.obj.tangent_vector
        st, x = self.call(op, call)
        rec.count(self.last)
        e.asked += 1
        rec.event(self.last, st, self.hit)
        rec.state((self.last, e.m, (op.get('fault') or {}).get('kind'), st))
        if st == 'fault':
            return
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        st, t = self.call({}, e.obj.tangent_vector)
        if st != 'ok':
            self.bad('error', repr(t))
        T, ta = S(t)
        def vec(s):
            if s.n > e.n and np.abs(s.c[e.n:]).max() > 1e-9 * (1 + np.abs(s.c).max()):
                return None
            return np.vstack([s.c, np.zeros((max(0, e.n - s.n), e.m))])[:e.n].flatten(order='F')
        tv = vec(T)
        if tv is None:
            self.bad('answer', 'the tangent has %d coefficients, the system %d' % (T.n, e.n))
        res = np.linalg.norm(e.A @ tv + e.Fa * ta)
        size = np.linalg.norm(tv) + abs(ta)
        if not res <= 1e-8 * size * (np.linalg.norm(e.A, 2) + np.linalg.norm(e.Fa)):
            self.bad('answer', 'the tangent is not in the null space (residual %.2g)' % res)
        nn = math.sqrt(float(np.trace(gram(T, T)).real) + ta ** 2)
        if abs(nn - 1) > 1e-8:
            self.bad('answer', 'the tangent has norm %.12g' % nn)
        if q == 'solve':
            X, xa = S(x)
            xv = vec(X)
            fv = np.array(f, float)
            if xv is None or not np.linalg.norm(e.A @ xv + e.Fa * xa - fv) <= 1e-8 * (np.linalg.norm(fv) + np.linalg.norm(xv) + abs(xa)) * 10:
                self.bad("answer", "the correction does not solve the linearised system (residual %.2g, %.2g, n=%s, %s)" % (np.linalg.norm(e.A @ xv + e.Fa * xa - fv) if xv is not None else -1, np.linalg.norm(fv), X.n, e.n))
            ip = float(np.trace(gram(T, X)).real) + ta * xa
            if not abs(ip) <= 1e-7 * (1 + np.linalg.norm(xv) + abs(xa)):
                self.bad('answer', 'the correction is not orthogonal to the tangent (inner product %.2g)' % ip)

    # ---------------------------------------------------------------- replacements
    def op_row(self, op):
        self.replace(op, 'row')

    def op_col(self, op):
        self.replace(op, 'col')

    def replace(self, op, which):
        W, rec = self.W, self.rec
        e = self.pick(op['t'], ['bem', 'bemw'])
        if e is None:
            return
        self.refresh(e)
        r = rs(op['s'] + 3)
        self.last = '%s:%s' % (which, e.kind)
        core = e.core
        n = len(core.M()) if isinstance(core, Ent) else core['n']
        base = core.core if isinstance(core, Ent) else core
        M0 = e.M()
        scale = base['scale']
        nested = isinstance(core, Ent)
        deps = [x for x in W.ents if x.core is e]
        for _ in range(8):
            M = M0.copy()
            j = 0
            if e.kind == 'bemw':
                j = r.randint(len(e.bs))
            k = n + j
            b, c, d = self.borders(r, base if not nested else dict(regime='good'), k, j)
            how = op['style'] if not (op['style'] == 'int' and scale != 1.0) else 'plain'
            if how == 'int':
                b, c, d = np.round(3 * b), np.round(3 * c), int(np.round(3 * d))
            v, d = (b if which == 'row' else c) * scale, d * scale
            if op.get('only'):
                d = e.d if e.kind == 'bem' else e.ds[j]
            if which == 'row':
                M[k, :k] = v
            else:
                M[:k, k] = v
            M[k, k] = d
            if (lead(M, n + 1) if base['regime'] != 'good' else lead(M, n)) < CONDMAX and not any(
                    lead(np.block([[M, x.c[:, None]], [x.b[None], np.array([[x.d]])]]), len(M)) > CONDMAX for x in deps):
                break
        else:
            return
        h = v.astype(int) if how == 'int' else style(v, how)
        W.keep(h)
        f = (lambda: (e.obj.update_row if which == 'row' else e.obj.update_col)(h, d)) if e.kind == 'bem' else (
            lambda: (e.obj.update_row if which == 'row' else e.obj.update_col)(j, h, d))
        st, x = self.call(op, f)
        rec.count('op:' + which)
        rec.event(self.last, st, self.hit)
        rec.state((self.last, base['regime'], min(e.updates, 3), min(e.failed, 2), (op.get('fault') or {}).get('kind'), st, how, nested, len(deps)))
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        old = (e.b, e.c, e.d) if e.kind == 'bem' else (list(e.bs), list(e.cs), list(e.ds))

        def adopt():
            if e.kind == 'bem':
                if which == 'row':
                    e.b = v
                else:
                    e.c = v
                e.d = d
            else:
                (e.bs if which == 'row' else e.cs)[j] = v
                e.ds[j] = d
        if st == 'ok':
            adopt()
            e.updates += 1
            for x in deps:
                x.stale = True
            return
        # stopped: the solver stands for the matrix it stood for (or, stopped between its own lines, for the new one)
        e.failed += 1
        rec.count('probe:failed-update')
        f = r.randn(len(M0))
        g = r.randn(len(M0))
        self.last = 'after-failed-%s:%s' % (which, e.kind)
        rec.count('check:failed-replacement')
        st, x = self.call({}, lambda: (e.obj.solve(f), e.obj.solve_adj(g)))
        if st != 'ok':
            self.bad('error', 'a failed replacement left a solver that raises %s: %s' % (type(x).__name__, x))
        ok = lambda B: not (self.solves(B, x[0], f) or self.solves(B.T, x[1], g))
        if ok(M0):
            return
        if not self.W.failed and ok(M):
            adopt()
            e.updates += 1
            for y in deps:
                y.stale = True
            return
        if (op.get('fault') or {}).get('kind') == 'core' and ok(M):
            # all of the work was done before the failure could be noticed: cannot be
            self.bad('torn', 'a replacement whose core solve failed took effect all the same')
        self.bad('torn', 'a failed replacement left a solver that stands for neither the old nor the new matrix')

    def op_prepare(self, op):
        e = self.pick(op['t'], ['bem', 'bemw'])
        if e is None or self.regime(e) == 'sing':
            return
        self.refresh(e)
        self.last = 'prepare:' + e.kind
        st, x = self.call(op, e.obj.prepare)
        self.rec.count('op:prepare')
        self.rec.event(self.last, st)
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        if st == 'fault':
            e.failed += 1

    def op_drop(self, op):
        if len(self.W.ents) > 1:
            e = self.W.ents.pop(op['t'] % len(self.W.ents))
            self.W.ents = [x for x in self.W.ents if x.core is not e]

    # ---------------------------------------------------------------- plain functions
    def matrix(self, op, sing):
        r = rs(op['s'])
        n = r.randint(2, 8)
        sv = r.uniform(.6, 3, n)
        if sing:
            sv[-1] = 0
        return orth(r, n) @ np.diag(sv) @ orth(r, n), r

    def op_nullvec(self, op):
        from funpy.linalg import nullspace
        A, r = self.matrix(op, True)
        way = r.randint(3)
        A = [A, np.asfortranarray(A), style(A, 'readonly')][r.randint(3)]
        self.W.keep(A)
        self.last = 'nullvec'
        f = [lambda: (self.L.right_null_vector(A), None), lambda: (None, nullspace.left_null_vector(A)), lambda: nullspace.null_vector(A, left=True)][way]
        st, x = self.call(op, f)
        self.rec.count('op:nullvec')
        self.rec.event('nullvec', st)
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        if st == 'ok':
            self.rec.count('check:null')
            for v, B in ((x[0], A), (x[1], A.T)):
                m = None if v is None else self.kernel(B, v, unit=True)
                if m:
                    self.bad('answer', '%s: %s' % ('right' if B is A else 'left', m))

    def op_lucp(self, op):
        from funpy.linalg.lucp import lucp
        A, r = self.matrix(op, op['t'] % 4 == 0)
        if op['t'] % 3 == 0:
            A = np.round(5 * A).astype(int)
        full = bool(r.randint(2))
        self.W.keep(A)
        self.last = 'lucp'
        st, x = self.call(op, lambda: lucp(A, full=full))
        self.rec.count('op:lucp')
        self.rec.event('lucp', st)
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        if st == 'ok':
            self.rec.count('check:decomposition')
            Lo, U, p, q = x
            d = lambda B: np.asarray(B.todense()) if sps.issparse(B) else np.asarray(B)
            if np.abs(d(Lo) @ d(U) - A[p][:, q]).max() > 1e-9 * (1 + np.abs(A).max()):
                self.bad('answer', 'LU is not the permuted matrix')
            if np.abs(np.triu(d(Lo), 1)).max() > 0 or np.abs(np.tril(d(U), -1)).max() > 0:
                self.bad('answer', 'the factors are not triangular')

    def op_qrfun(self, op):
        r = rs(op['s'])
        m, n = r.randint(1, 7), r.randint(1, 7)
        A = r.randn(m, n)
        A = [A, np.asfortranarray(A)][r.randint(2)]
        piv, mode = bool(r.randint(2)), ['full', 'economic'][r.randint(2)]
        self.W.keep(A)
        self.last = 'qr'
        st, x = self.call(op, lambda: self.L.qr(A, pivoting=piv, mode=mode))
        self.rec.count('op:qrfun')
        self.rec.event('qr', st)
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        if st == 'ok':
            self.rec.count('check:decomposition')
            Q, R, k = x[0], x[1], x[-1]
            B = A[:, x[2]] if piv else A
            if Q.shape[1] != R.shape[0] or np.abs(Q @ R - B).max() > 1e-9 or np.abs(Q.T @ Q - np.eye(Q.shape[1])).max() > 1e-9:
                self.bad('answer', 'not a QR decomposition')
            if mode == 'full' and abs((-1.0) ** k - np.linalg.det(Q)) > 1e-6:
                self.bad('answer', '%d reflections, but det Q = %g' % (k, np.linalg.det(Q)))


    def op_gbit(self, op):
        """the iterative solver: preconditioned with something close to the inverse, or not so close"""
        r = rs(op['s'])
        n = r.randint(1, 10)
        A = orth(r, n) @ np.diag(r.uniform(.3, 3, n)) @ orth(r, n)
        rho = [0.0, .01, .1, .3, .6][r.randint(5)]
        E = r.randn(n, n)
        P = np.linalg.inv(A) @ (np.eye(n) + rho * E / np.linalg.norm(E, 2))
        b = r.randn(n) * 10.0 ** r.randint(-3, 4)
        if r.rand() < .1:
            b = b * 0
        x0 = np.linalg.solve(A, b)
        y = [None, r.randn(n), x0.copy(), x0 + 1e-6 * r.randn(n)][r.randint(4)]
        tol = 10.0 ** -r.randint(2, 14)
        As, Ps = sps.csr_matrix(A), sps.csr_matrix(P)
        W = self.W
        W.keep(As, Ps, b)
        if y is not None:
            W.keep(y)
        kw = dict(tol=tol, max_iter=[2000, 2000, 2000, 30, 3][r.randint(5)])
        if r.rand() < .3:
            kw['giant_simple'] = True
        self.last = 'gbit'
        st, x = self.call(op, lambda: self.L.gbit(As, Ps, b, y=y, **kw))
        self.rec.count('op:gbit')
        self.rec.event('gbit', st)
        if st == 'raise':
            self.bad('error', '%s: %s' % (type(x).__name__, x))
        if st != 'ok':
            return
        z, good, it = np.asarray(x[0], float), bool(x[1]), int(x[2])
        self.rec.count('probe:gbit-%s' % ('success' if good else 'failure'))
        self.rec.state(('gbit', n, rho, good, min(it, 30), y is None, kw['max_iter']))
        if y is not None and np.shares_memory(z, y) or np.shares_memory(z, b):
            self.bad('shared', 'the answer is a view of an argument')
        if it > kw['max_iter'] + 1:
            self.bad('progress', '%d iterations, at most %d allowed' % (it, kw['max_iter']))
        self.rec.count('check:iterative')
        err = np.linalg.norm(z - x0)
        if good and not err <= (10 * tol + 1e-9) * (np.linalg.norm(x0) + (np.linalg.norm(y) if y is not None else 0) + 1e-12):
            self.bad('answer', 'success, but off by %.2g of %.2g (tolerance %.0e, preconditioner off by %g)' % (err, np.linalg.norm(x0), tol, rho))
        if not good and 'giant_simple' not in kw and rho <= .3 and kw['max_iter'] == 2000 and tol >= 1e-10:
            self.bad('answer', 'no success in %d iterations (tolerance %.0e, preconditioner off by %g)' % (it, tol, rho))


class Stop(Exception):
    pass
