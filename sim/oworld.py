"""Differential-equation problems with an independent pointwise residual, and operations on operators solving them."""
import math

import numpy as np
from numpy.polynomial import chebyshev as C

from .model import Snap, trig_eval, modes

PI = math.pi


class Prob:
    def __init__(self, name, eqn, ref, bc=(), bcref=(), dom=(-1.0, 1.0), pars=None, trig=False, guess=None, order=2, cts=(), linear=False):
        self.name, self.eqn, self.ref, self.bc, self.bcref = name, list(eqn), ref, list(bc), bcref
        self.dom, self.pars, self.trig, self.order, self.cts, self.linear = dom, pars or {}, trig, order, list(cts), linear
        self.guess = guess            # callables used as a starting guess (None: the zero function)
        self.neqn = len(self.eqn)


# ref(x, D, I, p): residuals; D[k][i] = k-th derivative of function i at x; I[i] its integral; p parameters
# bcref: (function, derivative, location, value(p))
PROBLEMS = [
    Prob('lin2', ['diff(u, x, 2) - b*u + x'], lambda x, D, I, p: [D[2][0] - p['b'] * D[0][0] + x],
         ['u(-1)', 'u(1) - 1'], [(0, 0, -1, 0), (0, 0, 1, 1)], pars=dict(b=(0.3, 4)), linear=True),
    Prob('first', ['diff(u, x) + u / (b * x**2 + 1)'], lambda x, D, I, p: [D[1][0] + D[0][0] / (p['b'] * x ** 2 + 1)],
         ['u(-1) - 1'], [(0, 0, -1, 1)], pars=dict(b=(0.5, 3)), order=1, linear=True),
    Prob('cubic', ['diff(u, x, 2) + b*u**3 - u + 1'], lambda x, D, I, p: [D[2][0] + p['b'] * D[0][0] ** 3 - D[0][0] + 1],
         ['u(-1)', 'u(1)'], [(0, 0, -1, 0), (0, 0, 1, 0)], pars=dict(b=(0.1, 0.8))),
    Prob('square', ['diff(u, x, 2) - c*u**2 + x'], lambda x, D, I, p: [D[2][0] - p['c'] * D[0][0] ** 2 + x],
         ['u(0)', 'u(2) - 1'], [(0, 0, 0, 0), (0, 0, 2, 1)], dom=(0.0, 2.0), pars=dict(c=(0.2, 1.2))),
    Prob('neumann', ['diff(u, x, 2) - b*u + exp(x)'], lambda x, D, I, p: [D[2][0] - p['b'] * D[0][0] + np.exp(x)],
         ['np.diff(u)(-1)', 'np.diff(u)(1)'], [(0, 1, -1, 0), (0, 1, 1, 0)], pars=dict(b=(0.5, 2)), linear=True),
    Prob('variable', ['diff(u, x, 2) + sin(x)*diff(u,x) - b*x**2*u + 1'],
         lambda x, D, I, p: [D[2][0] + np.sin(x) * D[1][0] - p['b'] * x ** 2 * D[0][0] + 1],
         ['u(-1)', 'u(1) - 1'], [(0, 0, -1, 0), (0, 0, 1, 1)], pars=dict(b=(0.3, 2)), linear=True),
    Prob('burgers', ['diff(u, x, 2) + u*diff(u,x) - b'], lambda x, D, I, p: [D[2][0] + D[0][0] * D[1][0] - p['b']],
         ['u(-1)', 'u(1) - 1'], [(0, 0, -1, 0), (0, 0, 1, 1)], pars=dict(b=(0.1, 0.6))),
    Prob('bratu', ['diff(u, x, 2) + b*exp(u)'], lambda x, D, I, p: [D[2][0] + p['b'] * np.exp(D[0][0])],
         ['u(-1)', 'u(1)'], [(0, 0, -1, 0), (0, 0, 1, 0)], pars=dict(b=(0.1, 0.5))),
    Prob('integral', ['diff(u, x, 2) - b*u + int(u, x)'], lambda x, D, I, p: [D[2][0] - p['b'] * D[0][0] + I[0]],
         ['u(-1)', 'u(1) - 1'], [(0, 0, -1, 0), (0, 0, 1, 1)], pars=dict(b=(0.5, 2)), linear=True),
    Prob('duffing', ['diff(u, x, 2) - u - b*u**3 + cos(x)'], lambda x, D, I, p: [D[2][0] - D[0][0] - p['b'] * D[0][0] ** 3 + np.cos(x)],
         dom=(-PI, PI), pars=dict(b=(0.05, 0.5)), trig=True, guess=[lambda x: 0.5 * np.cos(x)]),
    Prob('periodic', ['diff(u, x, 2) - (2+cos(x))*u + b*sin(x)'],
         lambda x, D, I, p: [D[2][0] - (2 + np.cos(x)) * D[0][0] + p['b'] * np.sin(x)],
         dom=(-PI, PI), pars=dict(b=(0.2, 2)), trig=True, guess=[lambda x: np.cos(x)], linear=True),
    Prob('pair', ['diff(u, x, 2) - u + v + cos(x)', 'diff(v, x, 2) - 2*v - b*u + sin(x)'],
         lambda x, D, I, p: [D[2][0] - D[0][0] + D[0][1] + np.cos(x), D[2][1] - 2 * D[0][1] - p['b'] * D[0][0] + np.sin(x)],
         dom=(-PI, PI), pars=dict(b=(0.1, 0.6)), trig=True, guess=[lambda x: 0.5 * np.cos(x), lambda x: 0.1 * np.sin(x)], linear=True),
    Prob('npair', ['diff(u, x, 2) - 3*u + b*u*v + cos(x)', 'diff(v, x, 2) - 2*v + u**2'],
         lambda x, D, I, p: [D[2][0] - 3 * D[0][0] + p['b'] * D[0][0] * D[0][1] + np.cos(x), D[2][1] - 2 * D[0][1] + D[0][0] ** 2],
         dom=(-PI, PI), pars=dict(b=(0.1, 0.6)), trig=True, guess=[lambda x: 0.3 * np.cos(x), lambda x: 0.05 + 0 * x]),
    Prob('two', ['diff(u, x, 2) - (a + b)*u + a*b*x'], lambda x, D, I, p: [D[2][0] - (p['a'] + p['b']) * D[0][0] + p['a'] * p['b'] * x],
         ['u(-1) + 1', 'u(1)'], [(0, 0, -1, -1), (0, 0, 1, 0)], pars=dict(a=(0.3, 2), b=(0.3, 2)), linear=True),
]
BYNAME = {p.name: p for p in PROBLEMS}
METHODS = ['lu', 'lu', 'nleq', 'nleq', 'qnerr', 'giant']


def make_op(fp, ChebOp, P, pars, n):
    kw = dict(functions=['u', 'v'][:P.neqn], parameters=dict(pars), domain=list(P.dom), eqn=list(P.eqn), bc=list(P.bc), n=n, diff_order=P.order)
    if P.cts:
        kw['constraints'] = list(P.cts)
    if P.trig:
        kw.update(colloc='trigspec', ftype='trig')
    return ChebOp(**kw)


def make_guess(Fun, P, kind, a=1.0):
    if kind == 'zero' and not P.trig:
        return None
    if P.guess:
        ops = [(lambda x, f=f: a * f(x)) for f in P.guess]
    else:
        lo, hi = P.dom
        ops = [lambda x: a * 0.3 * (x - lo) * (hi - x) + 0.1 * (x - lo)]
    return Fun(op=ops if len(ops) > 1 else ops[0], domain=list(P.dom), type='trig' if P.trig else 'cheb')


ZS = np.cos(np.pi * (np.arange(40) + 0.5) / 40)


def terms(P, f, z):
    S = Snap(f)
    a, b = S.dom
    sc = 2.0 / (b - a)
    D = [[S.der(k, z)[:, i] * sc ** k if k else S.ev(z)[:, i] for i in range(S.m)] for k in range(P.order + 1)]
    return (b - a) / 2 * z + (a + b) / 2, D, np.atleast_1d(S.total()) / sc


def reference_dp(P, f, pars, k, h=1e-4):
    """derivative of the residual by parameter k (central differences; the residuals are at most quadratic in it, or smooth)"""
    x, D, I = terms(P, f, ZS)
    hi, lo = [np.array(P.ref(x, D, I, dict(pars, **{k: pars[k] + s * h}))) for s in (1, -1)]
    return ((hi - lo) / (2 * h)).T


def reference_residual(P, f, pars, n=60):
    """independent residual norms of the equation and of the boundary conditions at the function f"""
    S = Snap(f)
    a, b = S.dom
    z = np.cos(np.pi * (np.arange(n) + 0.5) / n) if not P.trig else np.linspace(-1, 1, n, endpoint=False)
    x = (b - a) / 2 * z + (a + b) / 2
    sc = 2.0 / (b - a)
    D = [[S.der(k, z)[:, i] * sc ** k if k else S.ev(z)[:, i] for i in range(S.m)] for k in range(P.order + 1)]
    I = np.atleast_1d(S.total()) / sc
    r = P.ref(x, D, I, pars)
    e = max(float(np.max(np.abs(q))) for q in r)
    be = 0.0
    for i, k, loc, val in P.bcref:
        zz = np.array([sc * (loc - (a + b) / 2)])
        v = (S.der(k, zz) * sc ** k if k else S.ev(zz))[0, i]
        be = max(be, abs(v - val))
    mag = max(float(np.max(np.abs(d))) for dd in D for d in dd)
    return e, be, mag
