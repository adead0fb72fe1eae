"""P06: grids, weights, interpolation, transform and operator matrices under arbitrary request histories, with callers
and sampled callbacks overwriting whatever they are handed, and requests cut short by injected exceptions."""
import math

import numpy as np
from numpy.polynomial import chebyshev as C

from . import fworld as W
from .core import Engine
from .fengine import EXC, akey
from .hooks import monitor, StepLimit
from .model import modes, cheb_eval, trig_eval, PROBE

DOMS = [None, (-1, 1), (0.0, 1.0), (-2.0, 3.0), (-1, 1), (5.0, 5.5)]
Z = np.linspace(-0.93, 0.97, 11)


def scaled(x, dom):
    if dom is None:
        return x
    a, b = dom
    return (b - a) / 2 * x + (a + b) / 2


def cc_weights(n):
    """Clenshaw-Curtis weights from the moments"""
    x = -np.cos(np.pi * np.arange(n) / (n - 1))
    k = np.arange(n)
    mom = np.where(k % 2 == 0, 2.0 / (1.0 - k.astype(float) ** 2 + (k == 1)), 0.0)
    # discrete cosine orthogonality: w_j = c_j/(n-1) * sum'' mom_k T_k(x_j)
    T = C.chebvander(x, n - 1)
    h = np.ones(n)
    h[0] = h[-1] = 0.5
    return 2.0 / (n - 1) * h * (T @ (h * mom))


def ultra(lam, k, x):
    """C^(lam)_k(x); lam = 0 stands for T_k"""
    if lam == 0:
        return C.chebvander(x, k)[:, k]
    p0, p1 = np.ones_like(x), 2 * lam * x
    if k == 0:
        return p0
    for j in range(2, k + 1):
        p0, p1 = p1, (2 * (j + lam - 1) * x * p1 - (j + 2 * lam - 2) * p0) / j
    return p1


def uvander(lam, n, x):
    return np.stack([ultra(lam, k, x) for k in range(n)], axis=1)


def dense(M):
    return np.asarray(M.todense()) if hasattr(M, 'todense') else np.asarray(M)


def near(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s has shape %s, expected %s' % (what, a.shape, b.shape)
    if a.size == 0:
        return None
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
    if not np.all(d <= tol * (1 + np.abs(b))):
        return '%s off by %.3g' % (what, np.nanmax(d) if np.any(np.isfinite(d)) else np.nan)
    return None


# ------------------------------------------------------------------------------------------------ request catalogue
def r_pts2(S, q):
    n, dom = q['n'], q['dom']
    r = S.cheb.chebpts_type2(n, interval=list(dom)) if dom is not None else S.cheb.chebpts_type2(n)
    return r, lambda: chk_pts(r, n, dom, 2)


def r_chebpts(S, q):
    n, dom = q['n'], q['dom']
    if q['k'] % 2 and dom is not None:
        r = S.cheb.chebpts(n, interval=np.array(dom, float))
    elif dom is not None:
        r = S.cheb.chebpts(n, list(dom), 2)
    else:
        r = S.cheb.chebpts(n)
    return r, lambda: chk_pts(r, n, dom, 2)


def r_pts1(S, q):
    n, dom = q['n'], q['dom']
    r = S.cheb.chebpts_type1(n, interval=list(dom)) if dom is not None else S.cheb.chebpts_type1(n)
    return r, lambda: chk_pts(r, n, dom, 1)


def chk_pts(r, n, dom, ty):
    x, w, v, t = [np.asarray(a, float) for a in r]
    if n == 0:
        return None if x.size == 0 else 'points for n=0'
    if n == 1:
        return near(x, [0.0], 1e-14, 'points')
    if ty == 2:
        z = -np.cos(np.pi * np.arange(n) / (n - 1))
    else:
        z = -np.cos(np.pi * (2 * np.arange(n) + 1) / (2 * n))
    p = near(x, scaled(z, dom), 1e-13, 'points')
    if p or ty == 1:
        return p
    sc = 1.0 if dom is None else (dom[1] - dom[0]) / 2.0
    b = (-1.0) ** np.arange(n)[::-1]
    b[0] *= 0.5
    b[-1] *= 0.5
    return near(w, sc * cc_weights(n), 1e-12, 'weights') or near(v, b, 1e-14, 'barycentric weights') or \
        near(np.cos(t), z, 1e-12, 'angles')


def r_quadwts(S, q):
    n = q['n']
    r = S.cheb.quadwts(n)
    return (r,), lambda: near(r, np.zeros(0) if n == 0 else [2.0] if n == 1 else cc_weights(n), 1e-12, 'weights')


def r_bary(S, q):
    n = max(2, q['n'])
    r = S.cheb.bary_weights(n)
    b = (-1.0) ** np.arange(n)[::-1]
    b[0] *= 0.5
    b[-1] *= 0.5
    return (r,), lambda: near(r, b, 1e-14, 'barycentric weights')


def r_barymat(S, q):
    n = max(2, q['n'])
    x, _, v, _ = S.cheb.chebpts_type2(n)
    y = np.array(Z)
    if q['k'] % 3 == 0:
        y[:2] = x[:2]
    k0 = akey(np.asarray(x)), akey(np.asarray(v)), akey(y)
    r = S.cheb.barymat(y, x, v)
    k1 = akey(np.asarray(x)), akey(np.asarray(v)), akey(y)
    V = C.chebvander(-np.cos(np.pi * np.arange(n) / (n - 1)), min(n - 1, 9))
    return (r, x, v), lambda: ('arguments of barymat changed' if k0 != k1 else None) or \
        near(r @ V, C.chebvander(y, min(n - 1, 9)), 1e-11, 'interpolation matrix')


def r_chebdiff(S, q):
    n, k = max(2, min(q['n'], 24)), 1 + q['k'] % 3
    x = -np.cos(np.pi * np.arange(n) / (n - 1))
    x0 = akey(x)
    D = S.cheb.diffmat(x, k)
    m = min(n, 8)
    V = C.chebvander(x, m - 1)
    want = np.stack([C.chebval(x, C.chebder(np.eye(m)[j], k)) if k < m else 0 * x for j in range(m)], axis=1)
    return (D,), lambda: ('argument changed' if akey(x) != x0 else None) or near(D @ V, want, 1e-9 * n ** (2 * k) * 10, 'differentiation matrix')


def r_trigpts(S, q):
    n = q['n']
    x, w = S.trig.trigpts(n)
    return (x, w), lambda: near(x, -1 + 2 * np.arange(n) / n if n else np.zeros(0), 1e-14, 'points') or \
        near(w, np.full(n, 2.0 / n) if n else np.zeros(0), 1e-15, 'weights')


def r_trigquad(S, q):
    n = max(1, q['n'])
    w = S.trig.quadwts(n)
    return (w,), lambda: near(w, np.full(n, 2.0 / n), 1e-15, 'weights')


def fmt(q):
    return [None, 'csr', 'csc', 'csr'][q['f'] % 4]


def r_us_diff(S, q):
    n, m = max(4, q['n']), q['k'] % 4
    M = S.us.diffmat(n, m, format=fmt(q))
    W_ = np.eye(n)
    if m > 0:
        W_ = np.zeros((n, n))
        for j in range(n - m):
            W_[j, j + m] = 2.0 ** (m - 1) * math.factorial(m - 1) * (j + m)
    return (M,), lambda: near(dense(M), W_, 1e-12, 'ultraspherical derivative')


def r_us_conv(S, q):
    n, K1 = max(4, min(q['n'], 40)), q['k'] % 3
    K2 = K1 + (q['k'] // 3) % 3 - 1
    M = S.us.convertmat(n, K1, K2, format=fmt(q))
    # spectral vectors: column j of the matrix holds C^{K1}_j in the C^{K2+1} basis
    return (M,), lambda: near(uvander(max(K1, K2 + 1), n, Z) @ dense(M), uvander(K1, n, Z), 1e-9 * n, 'conversion matrix')


def r_us_spconv(S, q):
    n, lam = max(4, min(q['n'], 40)), q['k'] % 4
    M = S.tr.spconvert(n, lam, format=fmt(q))
    return (M,), lambda: near(uvander(lam + 1, n, Z) @ dense(M), uvander(lam, n, Z), 1e-9 * n, 'conversion matrix')


def r_us_spconv_inv(S, q):
    n, lam = max(4, min(q['n'], 40)), q['k'] % 4
    M = S.tr.spconvert_inv(n, lam, format=fmt(q))
    return (M,), lambda: near(uvander(lam, n, Z) @ dense(M), uvander(lam + 1, n, Z), 1e-8 * n, 'inverse conversion matrix')


def r_us_conv_inv(S, q):
    n, K1 = max(4, min(q['n'], 40)), q['k'] % 2
    K2 = K1 + (q['k'] // 2) % 2
    M = S.us.convertmat_inv(n, K1, K2, format=fmt(q))
    return (M,), lambda: near(uvander(K1, n, Z) @ dense(M), uvander(K2 + 1, n, Z), 1e-8 * n, 'inverse conversion matrix')


def r_us_mult(S, q):
    k, lam, fn = max(16, min(q['n'], 30)), q['k'] % 4, 1 + q['f'] % 6
    c = np.asfortranarray(np.random.RandomState(q['s']).uniform(-1, 1, (fn, 1)))
    if fn > 1:
        c[-1] = 0.7
    f = S.chebtech(coeffs=c.copy(order='F'), simplify=False)
    kf = akey(f.coeffs)
    M = S.us.multmat(k, f, lam, format=fmt(q))
    def chk():
        if akey(f.coeffs) != kf:
            return 'the multiplier changed'
        D = dense(M)
        j = k - fn - 1
        return near(uvander(lam, k, Z) @ D[:, :j], uvander(lam, j, Z) * cheb_eval(c, Z), 1e-8 * k * k, 'multiplication matrix')
    return (M,), chk


def r_us_int(S, q):
    n = max(4, q['n'])
    M = S.us.intmat(n, format='csr')
    k = np.arange(n)
    w = np.where(k % 2 == 0, 2.0 / (1.0 - k.astype(float) ** 2 + (k == 1)), 0.0)
    W_ = np.zeros((n, n))
    W_[0] = w
    return (M,), lambda: near(dense(M), W_, 1e-13, 'integration matrix')


def r_us_eval(S, q):
    n = max(2, q['n'])
    y = np.array([Z[q['k'] % len(Z)]])
    M = S.us.evalfun(n, y)
    V = C.chebvander(-np.cos(np.pi * np.arange(n) / (n - 1)), min(n - 1, 9))
    return (M,), lambda: near(M @ V, C.chebvander(y, min(n - 1, 9)), 1e-11, 'evaluation functional')


def r_ts_diff(S, q):
    n, m = max(3, q['n']), q['k'] % 4
    M = S.ts.diffmat(n, m, format='csr')
    d = (1j * modes(n)) ** m
    if n % 2 == 0 and m % 2:
        d[0] = 0
    return (M,), lambda: near(dense(M), np.diag(d), 1e-12, 'Fourier derivative')


def r_ts_mult(S, q):
    k, fn = max(9, q['n']) | 1, 1 + 2 * (q['f'] % 3)
    c = W.series(fn, 1, q['s'], 'trig')
    f = S.trigtech(coeffs=c.copy(order='F'), simplify=False)
    kf = akey(f.coeffs)
    M = S.ts.multmat(k, f, format='csr')
    h = fn // 2
    W_ = np.zeros((k, k), complex)
    for i in range(k):
        for j in range(k):
            if abs(i - j) <= h:
                W_[i, j] = c[h + i - j, 0]
    return (M,), lambda: ('the multiplier changed' if akey(f.coeffs) != kf else None) or near(dense(M), W_, 1e-13, 'Fourier multiplication matrix')


def r_ts_int(S, q):
    n = max(3, q['n'])
    M = S.ts.intmat(n, format='csr')
    W_ = np.zeros((n, n))
    i = list(modes(n)).index(0)
    W_[i, i] = 2
    return (M,), lambda: near(dense(M), W_, 1e-14, 'Fourier integration matrix')


def r_tc_diff(S, q):
    n, m = max(5, min(q['n'], 40)), 1 + q['k'] % 3
    M = S.tc.diffmat(n, m)
    x = -1 + 2 * np.arange(n) / n
    ks = np.arange(-((n - 1) // 2), (n - 1) // 2 + 1)
    E = np.exp(1j * np.pi * np.outer(x, ks))
    return (M,), lambda: near(M @ E, E * (1j * np.pi * ks) ** m, 1e-9 * (np.pi * n) ** m, 'Fourier collocation derivative')


def r_polyfit(S, q):
    n = max(2, q['n'])
    c = W.series(n, 1 + q['f'] % 3, q['s'], 'cheb')
    x = -np.cos(np.pi * np.arange(n) / (n - 1))
    v = np.asfortranarray(cheb_eval(c, x))
    k0 = akey(v)
    r = np.asarray(S.cheb.polyfit(v))
    return (r,), lambda: ('samples changed' if akey(v) != k0 else None) or near(r, c, 1e-11, 'coefficients')


def r_polyval(S, q):
    n = max(2, q['n'])
    c = W.series(n, 1 + q['f'] % 3, q['s'], 'cheb')
    x = -np.cos(np.pi * np.arange(n) / (n - 1))
    k0 = akey(c)
    r = np.asarray(S.cheb.polyval(c))
    return (r,), lambda: ('coefficients changed' if akey(c) != k0 else None) or near(r, cheb_eval(c, x), 1e-11, 'values')


def r_v2c(S, q):
    n = max(2, q['n'])
    c = W.series(n, 1 + q['f'] % 3, q['s'], 'trig', q['k'] % 2 == 0)
    n = c.shape[0]
    x = -1 + 2 * np.arange(n) / n
    v = np.asfortranarray(trig_eval(c, x))
    k0 = akey(v)
    r = np.asarray(S.tt.vals2coeffs(v))
    return (r,), lambda: ('samples changed' if akey(v) != k0 else None) or near(r, c, 1e-11, 'Fourier coefficients')


def r_c2v(S, q):
    n = max(2, q['n'])
    c = W.series(n, 1 + q['f'] % 3, q['s'], 'trig', q['k'] % 2 == 0)
    n = c.shape[0]
    x = -1 + 2 * np.arange(n) / n
    k0 = akey(c)
    r = np.asarray(S.tt.coeffs2vals(c))
    return (r,), lambda: ('coefficients changed' if akey(c) != k0 else None) or near(r, trig_eval(c, x), 1e-11, 'Fourier values')


def r_grid(S, q):
    """sample points, weights of a live function"""
    n = max(2, q['n'])
    if q['f'] % 2:
        n |= 1
        f = S.trigtech(coeffs=W.series(n, 1, q['s'], 'trig'), simplify=False)
        x = f.x
        return (x,), lambda: near(np.asarray(x).ravel(), -1 + 2 * np.arange(n) / n, 1e-14, 'sample points')
    f = S.chebtech(coeffs=W.series(n, 1, q['s'], 'cheb'), simplify=False)
    x = f.x
    return (x,), lambda: near(np.asarray(x).ravel(), -np.cos(np.pi * np.arange(n) / (n - 1)), 1e-13, 'sample points')


REQ = dict(pts2=r_pts2, chebpts=r_chebpts, pts1=r_pts1, quadwts=r_quadwts, bary=r_bary, barymat=r_barymat, chebdiff=r_chebdiff,
           trigpts=r_trigpts, trigquad=r_trigquad, us_diff=r_us_diff, us_conv=r_us_conv, us_spconv=r_us_spconv,
           us_spconv_inv=r_us_spconv_inv, us_conv_inv=r_us_conv_inv, us_mult=r_us_mult, us_int=r_us_int, us_eval=r_us_eval,
           ts_diff=r_ts_diff, ts_mult=r_ts_mult, ts_int=r_ts_int, tc_diff=r_tc_diff, polyfit=r_polyfit, polyval=r_polyval,
           v2c=r_v2c, c2v=r_c2v, grid=r_grid)


class S:      # the modules under test
    pass


NEED = dict(pts2='cheb.chebpts_type2', chebpts='cheb.chebpts', pts1='cheb.chebpts_type1', quadwts='cheb.quadwts',
            bary='cheb.bary_weights', barymat='cheb.barymat', chebdiff='cheb.diffmat', trigpts='trig.trigpts',
            trigquad='trig.quadwts', us_diff='us.diffmat', us_conv='us.convertmat', us_spconv='tr.spconvert',
            us_spconv_inv='tr.spconvert_inv', us_conv_inv='us.convertmat_inv', us_mult='us.multmat', us_int='us.intmat',
            us_eval='us.evalfun', ts_diff='ts.diffmat', ts_mult='ts.multmat', ts_int='ts.intmat', tc_diff='tc.diffmat',
            polyfit='cheb.polyfit', polyval='cheb.polyval', v2c='tt.vals2coeffs', c2v='tt.coeffs2vals', grid='cheb.chebtech')
HAVE = set()


def load():
    import importlib
    for nm, mod in dict(cheb='cheb', trig='trig', tt='trig.transform', us='colloc.ultraS.matrices', tr='colloc.ultraS.transform',
                        ts='colloc.trigspec.matrices', tc='colloc.trigcolloc.matrices').items():
        try:
            setattr(S, nm, importlib.import_module('funpy.' + mod))
        except ImportError:     # internal modules may move: what they offered is then reached through functions only
            setattr(S, nm, None)
    for k, path in NEED.items():
        m, a = path.split('.')
        if hasattr(getattr(S, m), a):
            HAVE.add(k)
    S.chebtech, S.trigtech = S.cheb.chebtech, S.trig.trigtech


def spoil(r, how):
    """what a caller may do with arrays and matrices it was given"""
    n = 0
    for a in r:
        if hasattr(a, 'data') and hasattr(a, 'tocsr'):
            d = a.data
            if isinstance(d, np.ndarray) and d.dtype != object and d.flags.writeable and d.size:
                d[...] = np.nan if how == 'nan' and d.dtype.kind in 'fc' else d * 3 + 1
                n += 1
            if how == 'struct':
                for nm in ('indices', 'offsets'):
                    b = getattr(a, nm, None)
                    if isinstance(b, np.ndarray) and b.flags.writeable:
                        b[...] = 0
        elif isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            if how == 'shift':
                a[...] = np.roll(a, 1)
            elif how == 'scale':
                a *= 2
                a += 1
            else:
                a[...] = np.nan if a.dtype.kind in 'fc' else 0
            n += 1
    return n


class MatrixEngine(Engine):
    shrink_keys = ('ops',)
    quick_runs = 6000
    thorough_runs = 100000
    quick_wall = 55
    measure = 'distinct (request, size class, memo temperature) situations'
    rule = ('one run is a seeded history of 30-160 requests for grids, weights, transforms and operators of few or many '
            'sizes, answers overwritten by the caller, with adaptive constructions through misbehaving samplers mixed in; '
            'distinct = distinct digests of requests and answers')
    real = ['funpy.cheb.pts', 'funpy.cheb.diff', 'funpy.cheb.detail', 'funpy.trig.trigpts', 'funpy.trig.transform',
            'funpy.colloc.ultraS', 'funpy.colloc.trigspec', 'funpy.colloc.trigcolloc', 'funpy.fun', 'functools.lru_cache']
    stub = ['sampled callbacks (scripted)']
    assumptions = ['type-1 quadrature and barycentric weights are compared with earlier answers only']
    must_hit = ['probe:evicting', 'probe:repeat-after-spoil', 'probe:vandal', 'fault:interrupted-request']

    def __init__(self, prop):
        self.prop = prop
        load()

    def gen(self, rng, idx, tier):
        many = rng.random() < 0.4
        pool = [rng.randrange(0, 100) for _ in range(70)] if many else [rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 65]) for _ in range(rng.choice([1, 2, 4]))]
        pool = pool + [9, 17]
        names = list(REQ)
        if rng.random() < 0.7:
            names = rng.sample(names, rng.choice([1, 2, 4, 8]))
        ks = [rng.randrange(12) for _ in range(rng.choice([1, 2, 6]))]
        fs = [rng.randrange(12) for _ in range(rng.choice([1, 2, 6]))]
        ss = [rng.randrange(1 << 20) for _ in range(rng.choice([1, 3]))]
        dm = [rng.choice(DOMS) for _ in range(rng.choice([1, 2]))]
        ops = []
        for _ in range(rng.choice([30, 60, 100]) + (60 if many else 0)):
            if rng.random() < 0.12:
                kind = rng.choice(['cheb', 'trig'])
                ops.append(dict(op='fun', kind=kind, fn=rng.choice(W.CHEB_OPS if kind == 'cheb' else W.TRIG_OPS),
                                a=round(rng.uniform(0.3, 1.5), 3), dom=list(rng.choice(W.DOMS)), m=rng.choice([1, 1, 2]),
                                vandal=rng.choice(['overwrite', 'inplace', 'keep', 'memo', 'none', 'overwrite'])))
            elif rng.random() < 0.08:
                ops.append(dict(op='late', how=rng.choice(['nan', 'scale'])))
            else:
                o = dict(op='req', fn=rng.choice(names), n=rng.choice(pool), k=rng.choice(ks), f=rng.choice(fs), s=rng.choice(ss),
                         dom=rng.choice(dm), spoil=rng.choice(['no', 'nan', 'scale', 'shift', 'struct', 'nan', 'late']))
                if rng.random() < 0.08:
                    o['fault'] = dict(at=int(math.exp(rng.uniform(0, math.log(40)))), exc=rng.choice(list(EXC)))
                ops.append(o)
        return dict(ops=ops)

    def run(self, plan, rec):
        np.seterr(all='ignore')
        mon = monitor()
        first, spoiled, sizes = {}, set(), {}
        self.kept = []
        self.memo = {}
        import funpy.fun as F
        for i, q in enumerate(plan['ops']):
            rec.simtime += 1
            if q['op'] == 'late':
                # arrays handed out long ago are overwritten now
                n = spoil(self.kept, q['how'])
                self.kept = []
                rec.count('op:late')
                rec.count('probe:late-spoil', 1 if n else 0)
                continue
            if q['op'] == 'fun':
                if self.fun(F, q, rec, mon):
                    return
                continue
            if q['fn'] not in HAVE:
                rec.count('skipped')
                continue
            key = repr([q[k] for k in ('fn', 'n', 'k', 'f', 's', 'dom')])
            rec.count('op:' + q['fn'])
            kw = dict(at=q['fault']['at'], exc=EXC[q['fault']['exc']]('injected')) if q.get('fault') else {}
            mon.start(limit=W.STEP_LIMIT, **kw)
            r = err = None
            try:
                r, chk = REQ[q['fn']](S, q)
            except (Exception, KeyboardInterrupt, StepLimit) as e:
                err = e
            finally:
                mon.stop()
            rec.simtime += mon.n
            if err is not None:
                rec.event(i, q['fn'], type(err).__name__)
                if mon.fired is not None:
                    rec.count('fault:interrupted-request')
                    continue
                return rec.violate('request', q['fn'], 'request %s raised %s: %s' % (key, type(err).__name__, err))
            sizes.setdefault(q['fn'], set()).add((q['n'], q['k'], q['f']))
            if len(sizes[q['fn']]) > 26:
                rec.count('probe:evicting')
            p = chk()
            rec.count('check:reference')
            if p:
                return rec.violate('reference', q['fn'], '%s: %s' % (key, p))
            try:
                d = [(a.shape, akey(dense(a))) for a in r]
            except Exception as e:
                return rec.violate('request', q['fn'], 'unusable answer: %s %s' % (type(e).__name__, e))
            for a in r:
                rec.data(dense(a))
            if key in first:
                rec.count('check:same-as-before')
                if first[key] != d:
                    return rec.violate('history', q['fn'], '%s: the answer differs from the earlier one' % key)
                if key in spoiled:
                    rec.count('probe:repeat-after-spoil')
            first[key] = d
            rec.state((q['fn'], min(q['n'], 20), key in first, q['spoil']))
            if q['spoil'] == 'late':
                self.kept += list(r)
            elif q['spoil'] != 'no':
                if spoil(r, q['spoil']):
                    rec.count('fault:overwritten-answer')
                    spoiled.add(key)

    def fun(self, F, q, rec, mon):
        dom = q['dom']
        f, g = W.op_library(q['fn'], q['a'], tuple(dom))
        how = q['vandal']
        m = q['m']
        mine = []

        def cb(x):
            if how == 'overwrite':
                y = f(x) + 0 * x
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = np.nan
                return y
            if how == 'inplace':
                y = f(x) + 0 * x
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = y
                    return x
                return y
            if how == 'keep':
                y = f(x) + 0 * x
                if isinstance(x, np.ndarray):
                    mine.append(x)
                return y
            if how == 'memo':
                k = (q['fn'], q['a'], tuple(dom), np.asarray(x).tobytes())
                if k not in self.memo:
                    y = np.array(f(x) + 0 * x)
                    self.memo[k] = (y, akey(y))
                return self.memo[k][0]
            return f(x)
        rec.count('op:fun')
        if how != 'none':
            rec.count('probe:vandal')
            rec.count('fault:vandal-callback')
        mon.start(limit=W.STEP_LIMIT)
        r = err = None
        try:
            r = F.Fun(op=cb if m == 1 else [cb, cb], domain=list(dom), type=q['kind'])
        except (Exception, StepLimit) as e:
            err = e
        finally:
            mon.stop()
        self.kept += mine
        if err is not None:
            return rec.violate('construct', q['kind'], '%s with a sampler that %ss its argument: %s %s' % (q['fn'], how, type(err).__name__, err)) or True
        for y, k in self.memo.values():
            rec.count('check:callback-array')
            if akey(y) != k:
                return rec.violate('callback-array', q['kind'], "an array owned by the callback was modified") or True
        w = W.World(dict(groups=[[q['kind'], dom]]))
        E = lambda z: np.stack([g(z) + 0 * z] * m, axis=1)
        sc = float(np.max(np.abs(E(W.DENSE))))
        for _, p in w.expect_fun(q['kind'], tuple(dom), m, E, sc, 1e-8)(r):
            return rec.violate('construct', q['kind'], '%s with a sampler that %ss its argument: %s' % (q['fn'], how, p)) or True
        rec.count('check:construct')
        rec.data(r.coeffs)
        z = np.array([0.3, -0.4])
        s = np.sum(r)
        x, wt = np.polynomial.legendre.leggauss(200)
        want = wt @ E(x) * (dom[1] - dom[0]) / 2
        p = W.close(s, want, 1e-7 * (sc + 1) * (dom[1] - dom[0]), 'integral')
        if p:
            return rec.violate('construct', q['kind'], p) or True
        return False
