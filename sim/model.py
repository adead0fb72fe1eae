"""Independent reference model: Chebyshev / Fourier series as coefficient arrays, evaluated with
numpy.polynomial and explicit Fourier sums.  Shares no code with the system under test."""
import numpy as np
from numpy.polynomial import chebyshev as C

_k = np.arange(27)
PROBE = np.unique(np.concatenate(([-1.0, 1.0, 0.0], np.cos(0.37 + _k * 2.39996322972865 % np.pi))))
DENSE = np.linspace(-1.0, 1.0, 241)


def modes(n):
    return np.arange(-(n - 1) // 2, (n - 1) // 2 + 1) if n % 2 else np.arange(-n // 2, n // 2)


def cheb_eval(c, z):
    return C.chebval(np.asarray(z), np.asarray(c)).T.reshape(len(z), -1)


def trig_eval(c, z):
    c = np.asarray(c)
    n = c.shape[0]
    z = np.asarray(z)
    E = np.exp(1j * np.pi * np.outer(z, modes(n)))
    if n % 2 == 0:      # the unpaired highest mode is a cosine
        E[:, 0] = np.cos(np.pi * z * (n // 2))
    return E @ c


def odd(c):
    """the same Fourier series with both modes of the highest cosine"""
    c = np.asarray(c)
    return c if c.shape[0] % 2 else np.concatenate([c[:1] / 2, c[1:], c[:1] / 2])


class Snap:
    """Immutable numerical picture of one function."""
    __slots__ = ('kind', 'dom', 'c', 'v', 'real', 'n', 'm', 'cls', 'happy', 'tol')

    def __init__(self, f):
        t = f.onefun if hasattr(f, 'onefun') else f
        self.kind = 'trig' if t.istrig else 'cheb'
        self.dom = tuple(float(d) for d in f.domain) if hasattr(f, 'onefun') else (-1.0, 1.0)
        self.c = np.array(t.coeffs, copy=True)
        self.v = np.array(t.values, copy=True) if self.kind == 'trig' else None
        if self.kind == 'trig':
            r = np.atleast_1d(np.array(t.isReal, dtype=bool)).ravel()
            m = self.c.shape[1] if self.c.ndim == 2 else 1
            self.real = np.broadcast_to(r, (m,)).copy() if r.size in (1, m) else r.copy()
        else:
            self.real = None
        self.n = self.c.shape[0] if self.c.ndim else 0
        self.m = self.c.shape[1] if self.c.ndim == 2 else 1
        # the tolerances that later operations work with
        self.tol = tuple((k, repr(getattr(t, k, None))) for k in ('eps', 'hscale', 'maxLength'))

    def ev(self, z):
        if self.kind == 'trig':
            y = trig_eval(self.c, z)
            return np.real(y) if self.real.all() else np.where(self.real[None, :], np.real(y), y)
        return cheb_eval(self.c, z)

    def key(self):
        return (self.kind, self.dom, self.c.shape, self.c.dtype.str, self.c.tobytes(),
                None if self.v is None else (self.v.shape, self.v.tobytes()),
                None if self.real is None else self.real.tobytes())

    def same(self, other):
        return self.key() == other.key()

    def diff_text(self, o):
        if self.c.shape != o.c.shape:
            return 'shape %s -> %s' % (self.c.shape, o.c.shape)
        if self.c.dtype != o.c.dtype:
            return 'dtype %s -> %s' % (self.c.dtype, o.c.dtype)
        if self.c.tobytes() != o.c.tobytes():
            return 'coefficients changed by %.3g' % float(np.nanmax(np.abs(self.c - o.c)))
        if self.dom != o.dom:
            return 'domain %s -> %s' % (self.dom, o.dom)
        if self.v is not None and (self.v.shape != o.v.shape or self.v.tobytes() != o.v.tobytes()):
            return 'sample values changed'
        return 'real flag changed'

    def scale(self):
        y = self.ev(DENSE)
        return float(np.max(np.abs(y))) if y.size else 0.0

    # ---- series calculus on [-1, 1] -----------------------------------------------------------
    def der(self, k, z):
        if self.kind == 'trig':
            c = odd(self.c)
            y = trig_eval(c * ((1j * np.pi * modes(len(c))) ** k)[:, None], z)
            return np.real(y) if self.real.all() else y
        if k >= self.n:
            return np.zeros((len(z), self.m))
        return cheb_eval(C.chebder(self.c, k), z)

    def integ(self, z):
        """antiderivative vanishing at -1"""
        if self.kind == 'trig':
            c = odd(self.c)
            k = modes(len(c))
            f = np.zeros(len(c), complex)
            nz = k != 0
            f[nz] = 1 / (1j * np.pi * k[nz])
            y = trig_eval(c * f[:, None], z) - trig_eval(c * f[:, None], np.array([-1.0]))
            return np.real(y) if self.real.all() else y
        b = C.chebint(self.c, lbnd=-1)
        return cheb_eval(b, z)

    def total(self):
        if self.kind == 'trig':
            y = 2 * self.c[modes(self.n).tolist().index(0), :]
            return np.real(y) if self.real.all() else y
        return C.chebval(1.0, C.chebint(self.c, lbnd=-1)).reshape(-1)


def gauss(n):
    return np.polynomial.legendre.leggauss(int(n))
