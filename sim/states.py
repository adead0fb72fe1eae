"""Solution states for the simulated worlds: building them and taking numerical pictures of them."""
import numpy as np

from .model import Snap

PNAMES = ['a', 'b', 'lam', 'mu', 'nu', 'p0']
KINDS = ['cont', 'cont', 'cont', 'defl', 'tpc', 'tp']


def isfun(o):
    """a function (states hand attribute look-ups on to their functions)"""
    return 'onefun' in getattr(o, '__dict__', ())


def picture(f):
    """everything one can see of a function, bit for bit"""
    t = f.onefun
    S = Snap(f)
    extra = []
    for k in ('eps', 'hscale', 'maxLength', 'ishappy', 'vscale'):
        try:
            v = getattr(t, k, None)
            v = v() if callable(v) else v
            extra.append((k, None if v is None else np.asarray(v).astype(complex).tobytes()))
        except Exception as e:
            extra.append((k, type(e).__name__))
    return (S.key(), tuple(extra) + position(f))


def position(f):
    """where the function takes a point of its interval, and back"""
    try:
        a, b = [float(x) for x in f.domain]
        m = f.mapping
        return (('map', float(np.ravel(m.fwd(0.37))[0]), float(np.ravel(m.bwd(a + 0.37 * (b - a)))[0])),)
    except Exception as e:
        return (('map', type(e).__name__),)


def num(v):
    a = np.asarray(v)
    if a.dtype == object:
        a = np.asarray(a.item())
    return complex(a.reshape(-1)[0]) if a.size == 1 else tuple(complex(x) for x in a.ravel())


def state_picture(s):
    """components of a state, bit for bit"""
    if hasattr(type(s), 'tangent'):
        return ('mp', state_picture(s.u), state_picture(s.v))
    return (type(s).__name__, tuple(float(w) for w in np.asarray(s.weights, float).ravel()),
            tuple(None if f is None else picture(f) for f in s.funcs),
            tuple(None if r is None else (r.name, num(r.value)) for r in s.reals),
            tuple(sorted((k, num(v)) for k, v in s.ns.items())))


def make_state(vs, kind, u, phi, names, vals, ns):
    P = lambda k: vs.Parameter(**{names[k]: vals[k]})
    if kind == 'cont':
        return vs.ContinuationState(a=P(0), u=u, **ns)
    if kind == 'defl':
        return vs.DeflationState(u=u, **ns)
    if kind == 'tpc':
        return vs.TwoParContState(p1=P(0), p2=P(1), u=u, **ns)
    if kind == 'tp':
        return vs.TwoParameterState(p1=P(0), p2=P(1), u=u, phi=phi, **ns)
    raise ValueError(kind)
