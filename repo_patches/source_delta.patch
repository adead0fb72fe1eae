From d4105d321b8a1d80afb94109bff0e25a3445b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 001/114] fix: iterate functions and states with independent
 iterators

---
 funpy/fun.py                     | 10 ++--------
 funpy/trig/trigtech.py           | 10 ++--------
 funpy/vectorspaces/base_state.py | 10 ++--------
 funpy/vectorspaces/mp_state.py   |  3 ---
 4 files changed, 6 insertions(+), 27 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..e77b817 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -154,14 +154,8 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return Fun(domain=self.domain, mapping=self.mapping, onefun=new_fun)
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every iteration keeps its own position
+        return (self[i] for i in range(self.m))
 
     def __array_ufunc__(self, numpy_ufunc, method, *inputs, **kwargs):
         out = kwargs.get('out', ())
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..eff3e5a 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -225,14 +225,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         return fun
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every iteration keeps its own position
+        return (self[i] for i in range(self.m))
 
     def __construct_from_callable(self, callable):
         pass
diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..3711f54 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -227,14 +227,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         return self.funcs[idx // m][idx % m]
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.columns:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every iteration keeps its own position
+        return (self[i] for i in range(self.columns))
 
     def __setitem__(self, key, value):
         # TODO: this is not elegant at all; and setitem and getitem do
diff --git a/funpy/vectorspaces/mp_state.py b/funpy/vectorspaces/mp_state.py
index 2fc8f56..f52cf1a 100644
--- a/funpy/vectorspaces/mp_state.py
+++ b/funpy/vectorspaces/mp_state.py
@@ -40,9 +40,6 @@ class MoorePenroseState(np.lib.mixins.NDArrayOperatorsMixin):
     def __iter__(self):
         return iter(self.u)
 
-    def __next__(self):
-        return next(self.u)
-
     def __getattr__(self, name):
         """ Delegate lookup of some symbols to the underlying function objects """
         if not hasattr(self.u, name):
-- 
2.43.0


From 24d7e39a827face9d078ac166b9b26591203b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 002/114] fix: evaluating an even-length real Fourier function
 must not modify its coefficients

---
 funpy/trig/eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..da739e2 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -64,7 +64,8 @@ def horner_scl_real(x, c):
 
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
-    c = c[n-1::-1, :]
+    # (copy: np.real and np.imag are views, and are modified below)
+    c = np.copy(c[n-1::-1, :])
     a = np.real(c)
     b = np.imag(c)
     b.flags.writeable = True
@@ -95,7 +96,8 @@ def horner_vec_real(x, c):
 
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
-    c = c[n-1::-1, :]
+    # (copy: np.real and np.imag are views, and are modified below)
+    c = np.copy(c[n-1::-1, :])
     a = np.real(c)
     b = np.imag(c)
     e = np.ones((nValsX, 1))
-- 
2.43.0


From 5f34860dd0a9554ebe31618fa60032ab0b68695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 003/114] fix: computing roots must not simplify the function
 itself

---
 funpy/cheb/chebtech.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..ea5d1bf 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -396,9 +396,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             return lambda x: op(self(x), g(x))
 
     def roots(self, *args, **kwargs):
-        # If we don't simplify this may lead to crashes!
-        self.simplify()
-        return roots(self, eps=self.eps)
+        # If we don't simplify this may lead to crashes! (simplify a copy, not the function itself)
+        return roots(np.copy(self).simplify(), eps=self.eps)
 
     def minandmax(self, *args, **kwargs):
         fp = np.diff(self)
-- 
2.43.0


From faa59dabf980ca43308db51028c3bbb05826c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 004/114] fix: computing a QR factorisation must not prolong
 the function itself

---
 funpy/cheb/qr.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index deb0f5f..4070393 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.linalg as LA
 
 from .pts import chebpts
-from .detail import polyfit
+from .detail import polyfit, polyval
 
 from ..qr import abstractQR
 
@@ -30,8 +30,7 @@ def qr(f, eps=1.48e-8):
     # make discrete analog of f
     newN = 2 * max(n, m)
     # get values?
-    f.prolong(newN)
-    A = f.values
+    A = polyval(np.asarray(f.prolong_coeffs(newN), order='F'))
 
     # Get the chebyshev points
     x, w, _, _ = chebpts(newN)
-- 
2.43.0


From 9c725becfaff9cac52608c074960c074cfcb7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 005/114] fix: building a functional must not prolong the
 function it is made from

---
 funpy/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..9d7f5fd 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -19,7 +19,7 @@ class Functional:
 
         n = kwargs.pop('n', None)
         if n is not None:
-            function = function.prolong(n)
+            function = np.copy(function).prolong(n)
 
         if weighted:
             self.coeffs = np.asarray(function)
-- 
2.43.0


From 64cfe2297665722fe5b5bf51cc1ddd2fa38950d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 006/114] fix: convolution must not prolong its operands

---
 funpy/trig/operations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 5bc1cb3..8e2a59c 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
 import numpy as np
 from scipy.fft import ifft, fft
 
@@ -58,10 +59,11 @@ def circconv(f, g, domain):
     ng = g.n
 
     # Make sure the trigtech objects have the same underlying size
+    # (copies: the operands themselves must keep their length)
     if nf > ng:
-        g.prolong(nf)
+        g = deepcopy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = deepcopy(f).prolong(ng)
     n = f.n
 
     # Convolution is just multiplication of the Fourier coefficients.
@@ -90,10 +92,11 @@ def trig_adhesion(f, g, domain):
     ng = g.n
 
     # Make sure the trigtech objects have the same underlying size
+    # (copies: the operands themselves must keep their length)
     if nf > ng:
-        g.prolong(nf)
+        g = deepcopy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = deepcopy(f).prolong(ng)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
-- 
2.43.0


From a8d1f3e4c07e0366c82b1d4380b50b32cf420f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 007/114] fix: composing Chebyshev functions must not prolong
 them

---
 funpy/cheb/refine.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..8d2d125 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -126,8 +126,7 @@ class RefineCompose1(RefineBase):
             return self.values, giveUp
 
         # update f-values
-        self.f.prolong(n)
-        v1 = polyval(self.f.coeffs)
+        v1 = polyval(self.f.prolong_coeffs(n))
 
         # compute the new values
         self.values = self.op(v1)
@@ -146,8 +145,7 @@ class RefineCompose1(RefineBase):
                 giveUp = False
 
             # check that n is too large
-            self.f.prolong(n)
-            fvalues = polyval(self.f.coeffs)
+            fvalues = polyval(self.f.prolong_coeffs(n))
             v1 = fvalues[1:-1:2, :]
 
             # shift the values
@@ -174,10 +172,8 @@ class RefineCompose2(RefineBase):
             return self.values, giveUp
 
         # update f-values
-        self.f.prolong(n)
-        v1 = polyval(self.f.coeffs)
-        self.g.prolong(n)
-        v2 = polyval(self.g.coeffs)
+        v1 = polyval(self.f.prolong_coeffs(n))
+        v2 = polyval(self.g.prolong_coeffs(n))
 
         # compute the new values
         self.values = self.op(v1, v2)
@@ -196,11 +192,9 @@ class RefineCompose2(RefineBase):
                 giveUp = False
 
             # check that n is too large
-            self.f.prolong(n)
-            fvalues = polyval(self.f.coeffs)
+            fvalues = polyval(self.f.prolong_coeffs(n))
             v1 = fvalues[1:-1:2, :]
-            self.g.prolong(n)
-            gvalues = polyval(self.g.coeffs)
+            gvalues = polyval(self.g.prolong_coeffs(n))
             v2 = gvalues[1:-1:2, :]
 
             # shift the values
-- 
2.43.0


From 5ca080b851bc8e91fe06fc2c80b013c66e6b9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 008/114] fix: in-place addition of Chebyshev functions must
 not prolong the right operand

---
 funpy/cheb/ufuncs.pyx | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..1968424 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -53,11 +53,7 @@ def add(x1, x2, **kwargs):
     out = kwargs.get('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
-
+        c = np.copy(x1.coeffs, order='F')
         other = np.asanyarray(x2, order='F')
 
         # the first coefficient represents the constant
@@ -84,20 +80,13 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-            c = out[0].coeffs
-            oc = x2.coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            oc = x2.coeffs
-            if nf > no:
-                oc = detail.prolong(oc, nf)
-            elif nf < no:
-                c = detail.prolong(c, no)
+        # (neither x1 nor x2 may be changed here, even when we have an output argument)
+        c = np.copy(x1.coeffs, order='F')
+        oc = x2.coeffs
+        if nf > no:
+            oc = detail.prolong(oc, nf)
+        elif nf < no:
+            c = detail.prolong(c, no)
 
         # update values and coefficients
         c += oc
@@ -119,6 +108,7 @@ def add(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs = c
         out[0].ishappy = ishappy
         out[0].eps = eps
         return out[0]
-- 
2.43.0


From 3f9cfb6e41a2120cf7b101fef055e4b55a368bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 009/114] fix: +f and f**1 of a Chebyshev function must not
 share its coefficients

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 1968424..4205784 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -26,7 +26,7 @@ def negative(x, **kwargs):
                        maxLength=x.maxLength, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
@@ -40,7 +40,7 @@ def power(x1, x2, **kwargs):
     if isinstance(x2, Number):
         # Do nothing just return the function
         if x2 == 1.0:
-            return x1
+            return np.copy(x1)
         return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
     else:
         return NotImplemented
-- 
2.43.0


From c965011c18f7b5a0de75f467f78560030bc124a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 010/114] fix: in-place division of Chebyshev functions must
 not write into shared coefficients

---
 funpy/cheb/ufuncs.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 4205784..dfdd92b 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -281,10 +281,7 @@ def true_divide(x1, x2, **kwargs):
             return NotImplemented
 
     # We know must have that x1 is a chebtech object.
-    if out is not None:
-        c = out[0].coeffs
-    else:
-        c = np.copy(x1.coeffs)
+    c = np.copy(x1.coeffs, order='F')
 
     # Deal with the division!
     if isinstance(x2, Number):
@@ -308,6 +305,7 @@ def true_divide(x1, x2, **kwargs):
         return NotImplemented
 
     if out is not None:
+        out[0].coeffs = c
         out[0].eps = eps
         return out[0]
     else:
-- 
2.43.0


From 6bc47a81bd0aca7284ce940cc94c45adb68c3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 011/114] fix: multiply vector-valued constant Chebyshev
 functions

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index dfdd92b..150fbfd 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -222,9 +222,9 @@ def multiply(x1, x2, **kwargs):
     # coefficient space.
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
-        if x1.n == 1:  # x1 is a constant function
+        if x1.n == 1 and x1.m == 1:  # x1 is a constant scalar function
             return multiply(x2, x1.coeffs, **kwargs)
-        elif x2.n == 1:  # x2 is a constant function
+        elif x2.n == 1 and x2.m == 1:  # x2 is a constant scalar function
             return multiply(x1, x2.coeffs, **kwargs)
 
         if out is not None:
-- 
2.43.0


From 245c1be5469dc4b9e993de4f1072014b42fb7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 012/114] fix: deepcopy of a Chebyshev function keeps hscale

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index ea5d1bf..42f2e23 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -87,7 +87,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
-- 
2.43.0


From e4363c6aceb18aaf8440ed5dbb8223fcc4d1cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 013/114] fix: columns, real/imag parts and prolonged
 coefficients of a Chebyshev function are copies

---
 funpy/cheb/chebtech.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 42f2e23..847aedc 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -219,7 +219,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx.start < 0 or idx.stop > self.m:
                 raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, idx], eps=self.eps,
+            return chebtech(coeffs=np.copy(self.coeffs[:, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
@@ -227,7 +227,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx < 0 or idx >= self.m:
                 raise IndexError("The index {0:d} is out of range ({1:d})!".format(idx, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, None, idx], eps=self.eps,
+            return chebtech(coeffs=np.copy(self.coeffs[:, None, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
         else:
@@ -304,7 +304,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             assert False, 'Not a valid interval'
         elif s.size == 2 and np.all(s == np.asarray([-1, 1])):
             # nothing to do here
-            return self
+            return np.copy(self)
 
         n, m = self.shape
         numInts = s.size - 1
@@ -334,7 +334,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
     def prolong_coeffs(self, Nout):
         # TODO fix the endless duplication of this code-path!
         """ Return the prolonged coefficients only """
-        return np.asarray(prolong(self.coeffs, Nout), order='F')
+        return np.array(prolong(self.coeffs, Nout), order='F')
 
     def simplify(self, eps=None, force=False):
         # if not happy simply do nothing
@@ -454,7 +454,7 @@ def argmax(f):
 @implements(np.real)
 def real(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.real(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.real(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
@@ -462,7 +462,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
-- 
2.43.0


From 503ee89e58eb1036ee4708f5924dac273a223ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 014/114] fix: in-place addition of Fourier functions must not
 prolong the right operand

---
 funpy/trig/ufuncs.py | 60 ++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..0f5e1d5 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -46,13 +46,8 @@ def add(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
-
+        c = np.copy(x1.coeffs, order='F')
+        v = np.copy(x1.values, order='F')
         other = np.asanyarray(x2, order='F')
 
         # simply add to the values
@@ -89,39 +84,19 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-
-            c = out[0].coeffs
-            v = out[0].values
-            # print('out!')
-            # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
-        else:
-            # FIXME - I shouldn't need any of these silly type conversions!
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
-            oc = x2.coeffs
-            ov = x2.values
-            if nf > no:
-                oc, ov = prolong(oc, nf, x2.isReal)
-            elif nf < no:
-                c, v = prolong(c, no, x1.isReal)
+        # (neither x1 nor x2 may be changed here, even when we have an output argument)
+        # FIXME - I shouldn't need any of these silly type conversions!
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
-            # print('not out!')
+        oc = x2.coeffs
+        ov = x2.values
+        if nf > no:
+            oc, ov = prolong(oc, nf, x2.isReal)
+        elif nf < no:
+            c, v = prolong(c, no, x1.isReal)
 
         # Get the new values
-        # print('out = ', out)
-        # if out is not None:
-        #     print('out = ', out[0].values.dtype)
-        # print('ov=', ov.dtype)
-        # print('v=', v.dtype)
         v += ov
 
         # update is real
@@ -131,16 +106,13 @@ def add(x1, x2, **kwargs):
         v[:, is_real] = np.real(v[:, is_real])
 
         # update the coefficients
-        if out is not None:
-            out[0].coeffs = vals2coeffs(v)
-        else:
-            c = vals2coeffs(v)
+        c = vals2coeffs(v)
 
         # Look for zero output - TODO check that i don't do this before updating c!
         if ~np.any(v) or ~np.any(c):
             # create a zero trigtech
-            c = np.zeros((1, v.shape[1]))
-            v = np.zeros((1, v.shape[1]))
+            c = np.zeros((1, v.shape[1]), dtype=complex)
+            v = np.zeros((1, v.shape[1]), dtype=complex)
             ishappy = x1.ishappy
         else:
             ishappy = x1.ishappy and x2.ishappy
@@ -150,8 +122,8 @@ def add(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs, out[0].values, out[0].isReal = c, v, is_real
         out[0].ishappy = ishappy
-        out[0].isReal = is_real
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=False, ishappy=ishappy, isreal=is_real)
-- 
2.43.0


From 3bad3b78c7cb8ab1a6ec56e483dd0db1363020b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 015/114] fix: adding a number with negative imaginary part to
 a Fourier function makes it complex

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 0f5e1d5..a3cbb78 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -68,7 +68,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
-- 
2.43.0


From 739c4ea585a3decef9d2cf3dd8f7ae2083ed4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 016/114] fix: multiplying Fourier functions must not modify
 the operands, and keeps values and real flag in step

---
 funpy/trig/ufuncs.py | 44 +++++++++++---------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index a3cbb78..bf5fde9 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -139,20 +139,16 @@ def multiply(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
+        # FIXME???
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
         # update coefficients
         c *= x2
         v *= x2
 
         # update the is real number
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isReal & bool(np.isreal(x2))
         ishappy = x1.ishappy
 
     elif isinstance(x2, np.ndarray):
@@ -166,18 +162,12 @@ def multiply(x1, x2, **kwargs):
         # for the coefficients
         assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
+        # multiply the coefficients (and find the matching values)
+        fun = trigtech(coeffs=x1.coeffs * x2)
+        c = fun.coeffs
+        v = fun.values
 
-        # multiply the coefficients
-        c *= x2
-        v *= x2
-
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = fun.isReal
         ishappy = x1.ishappy
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
@@ -197,13 +187,6 @@ def multiply(x1, x2, **kwargs):
         elif x2.n == 1:  # x2 is a constant function
             return multiply(x1, x2.coeffs, **kwargs)
 
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
-
         # Get the shapes
         fn, fm = x1.shape
         gn, gm = x2.shape
@@ -217,11 +200,7 @@ def multiply(x1, x2, **kwargs):
                 # Allow [inf x 1] .* [Inf x m]
                 nvals = np.tile(nvals, (1, gm))
                 ncoeffs = np.tile(ncoeffs, (1, gm))
-            elif gm == 1:
-                # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
-            else:
+            elif gm != 1:  # [inf x m] .* [Inf x 1] is allowed and broadcast below
                 assert False, 'Inner matrix dimensions must agree!'
 
         # check for two cases where the output is known in advance to be
@@ -266,9 +245,8 @@ def multiply(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs, out[0].values, out[0].isReal = c, v, is_real
         out[0].ishappy = ishappy
-        out[0].coeffs = c
-        out[0].values = v
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=True,
-- 
2.43.0


From a8cc582616b26d6eb69f53b2d67d2bd520ab3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 017/114] fix: multiply constant Fourier functions (in-place
 and vector-valued)

---
 funpy/trig/trig_simplify.py |  2 +-
 funpy/trig/ufuncs.py        | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index ee2a2bd..79559b1 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -16,7 +16,7 @@ def prolong(coeffs, Nout, isReal=None):
     Nin = coeffs.shape[0]
 
     if Nout == Nin:  # Do nothing
-        return
+        return coeffs, coeffs2vals(coeffs)
 
     if np.remainder(Nin, 2) == 0:
         coeffs = np.vstack((0.5 * coeffs[0, :], coeffs[1:, :], 0.5 * coeffs[0, :]))
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index bf5fde9..9265266 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -153,7 +153,7 @@ def multiply(x1, x2, **kwargs):
 
     elif isinstance(x2, np.ndarray):
         if x2.size == 1:
-            return multiply(x1, x2.item(), **kwargs)
+            return multiply(x1, x2.item(), out=out)
 
         if len(x2.shape) == 1:
             x2 = np.expand_dims(x2, axis=1)
@@ -182,10 +182,10 @@ def multiply(x1, x2, **kwargs):
     # coefficient space.
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
-        if x1.n == 1:  # x1 is a constant function
-            return multiply(x2, x1.coeffs, **kwargs)
-        elif x2.n == 1:  # x2 is a constant function
-            return multiply(x1, x2.coeffs, **kwargs)
+        if x1.n == 1 and x1.m == 1:  # x1 is a constant scalar function
+            return multiply(x2, x1.coeffs, out=out)
+        elif x2.n == 1 and x2.m == 1:  # x2 is a constant scalar function
+            return multiply(x1, x2.coeffs, out=out)
 
         # Get the shapes
         fn, fm = x1.shape
-- 
2.43.0


From abe1db8aa9327e00385937348a77e39a886c007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 018/114] fix: square a real Fourier function

---
 funpy/trig/ufuncs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 9265266..1418e03 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -210,7 +210,7 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
@@ -234,9 +234,9 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
-            is_real = x1.isreal and x2.isreal
+            is_real = np.ones(c.shape[1]).astype(bool) & x1.isReal & x2.isReal
 
         # if values are real -> make the result real
         v[:, is_real] = np.real(v[:, is_real])
-- 
2.43.0


From 211e88cb3f508805c66843a854defaff897fba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 019/114] fix: dividing a number by a Fourier function is not
 dividing the function by the number

---
 funpy/trig/ufuncs.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 1418e03..782d7a7 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -256,17 +256,14 @@ def divide(x1, x2, **kwargs):
     return true_divide(x1, x2, **kwargs)
 
 def true_divide(x1, x2, **kwargs):
-    # if we have one element that is a ndarray or Number we want that to be x2!
-    if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
-
     out = kwargs.pop('out', None)
-    if out is not None:
-        c = out[0].coeffs
-        v = out[0].values
-    else:
-        c = np.copy(x1.coeffs)
-        v = np.copy(x1.values)
+    if isinstance(x1, Number):
+        return trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=2 * x2.n)
+    elif isinstance(x1, np.ndarray):
+        return true_divide(x1.item(), x2) if x1.size == 1 else NotImplemented
+
+    c = np.copy(x1.coeffs, order='F')
+    v = np.copy(x1.values, order='F')
 
     if isinstance(x2, Number):
         c /= x2
-- 
2.43.0


From 62c7c8720af6b65f0d66a291b557c3a35dfa2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 020/114] fix: in-place division of Fourier functions keeps
 coefficients, values and real flag in step

---
 funpy/trig/ufuncs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 782d7a7..c496401 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -280,15 +280,15 @@ def true_divide(x1, x2, **kwargs):
     elif isinstance(x2, type(x1)):
         fun = trigtech(op=lambda x: np.divide(x1(x), x2(x)), minSamples=x1.n + x2.n)
         if out is not None:
-            out[0].values = fun.values
-            out[0].coeffs = fun.coeffs
+            out[0].coeffs, out[0].values, out[0].isReal = fun.coeffs, fun.values, fun.isReal
             return out[0]
         return fun
     else:
         return NotImplemented
 
     if out is not None:
-        # out[0].values = v
+        is_real = trigtech(coeffs=c, values=v).isReal
+        out[0].coeffs, out[0].values, out[0].isReal = c, v, is_real
         return out[0]
     else:
         return trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
-- 
2.43.0


From 4be7ff55a8ad9ea2e38171aafc1d52b2659f6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 021/114] fix: a number to the power of a Fourier function is
 not the function to the power of the number

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index c496401..94dc582 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -31,7 +31,7 @@ def fabs(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
+        return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2 * x2.n)
 
     if isinstance(x2, Number):
         return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
-- 
2.43.0


From accad9e675d6ed4f99beedc3dd694eceaa8fc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 022/114] fix: +f, real(f), zero shifts and prolonged
 coefficients of a Fourier function are copies

---
 funpy/trig/operations.py |  2 +-
 funpy/trig/trigtech.py   | 10 ++--------
 funpy/trig/ufuncs.py     |  3 ++-
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 8e2a59c..edc5c7e 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -20,7 +20,7 @@ def circshift(f, a):
 
     # The trivial case
     if a == 0:
-        return f
+        return deepcopy(f)
 
     # These interpolations are defined on the interval [0, 2*pi), but we want them on
     # (-pi, pi). To fix the coefficients for this we just need to assign
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index eff3e5a..b50dffc 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -446,11 +446,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             c = np.copy(self.coeffs, order='F')
 
-        if Nin == Nout:
-            c = self.coeffs
-
         # Pad with zeros
-        elif Nout > Nin:
+        if Nout > Nin:
             kup = np.ceil((Nout-Nin)/2).astype(int)
             kdown = np.floor((Nout-Nin)/2).astype(int)
             c = np.vstack((np.zeros((kup, c.shape[1])), c,
@@ -464,9 +461,6 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             if kup < kdown:
                 c[0, :] = 2*c[0, :]
 
-        else:
-            raise RuntimeError("I should not get here!")
-
         return c
 
     def __eq__(self, other):
@@ -506,7 +500,7 @@ def argmax(f):
 def real(trig):
     """ Returns real part of a trigtech """
     if trig.isreal:
-        return trig
+        return deepcopy(trig)
 
     fvalues = np.real(trig.values)
     if np.all(fvalues < trig.eps):
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 94dc582..3d5413d 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
 import numpy as np
 from numbers import Number
 
@@ -21,7 +22,7 @@ def negative(x, **kwargs):
                         simplify=False, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return deepcopy(x)
 
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
-- 
2.43.0


From fdf2b3adcf53ffc0503198122bdb7b49586363a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 023/114] fix: conjugate complex Fourier functions

---
 funpy/trig/trigtech.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index b50dffc..645c5f3 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -538,16 +538,8 @@ def imag(trig):
 
 @implements(np.conj)
 def conj(trig):
-    id = ~trig.isReal
-    if np.all(id):
-        return trig
-
-    # other wise construct a new trigtech
-    values = np.copy(trig.values)
-    coeffs = np.copy(trig.coeffs)
-    values[:, id] = np.conj(values[:, id])
-    coeffs[:, id] = np.flipud(np.conj(coeffs[:, id]))
-    return trigtech(values=values, coeffs=coeffs, ishappy=trig.ishappy,
+    values = np.conj(trig.values)
+    return trigtech(values=values, coeffs=vals2coeffs(values), ishappy=trig.ishappy,
                     simplify=False, isreal=trig.isReal)
 
 
-- 
2.43.0


From a31667d209499ed53a0c3b0f3b2206bb05ed1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 024/114] fix: antiderivative of a Fourier function must not
 modify it, and of odd lengths picks the constant mode

---
 funpy/trig/trigtech.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 645c5f3..628b69e 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -599,7 +599,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
@@ -610,7 +610,7 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*np.maximum(f.vscale, f.get_vscale())*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
@@ -622,15 +622,15 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[ind, :] = 0
         highestDegree = (n-1)//2
 
-    # TODO silence warning here!
     # loop over integration factor for each coefficient
     sumIndices = np.expand_dims(np.arange(-highestDegree, highestDegree+1), axis=1)
-    integrationFactor = (-1j/sumIndices/np.pi)**m
-    # zero out the one corresponding to the zeroth term
-    integrationFactor[highestDegree] = 0
+    # (the factor corresponding to the zeroth term is zero)
+    integrationFactor = np.zeros(sumIndices.shape, dtype=complex)
+    nonzero = sumIndices != 0
+    integrationFactor[nonzero] = (-1j/sumIndices[nonzero]/np.pi)**m
     c = c * integrationFactor
     # If this is an odd order cumsum and there an even number of
     # coefficients then zero out the coefficients corresponding to
@@ -640,7 +640,7 @@ def cumsum(f, m=1, **kwargs):
         c[n, :] = 0
 
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
     if isEven:
         c = c[:-1]
-- 
2.43.0


From a795db0b1b07e1aeb723c94dd781f066d80b2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 025/114] fix: powers, quotients and compositions of Fourier
 functions start from enough samples

---
 funpy/trig/trigtech.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 628b69e..51e3235 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -67,7 +67,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 else:   # Assume that it's a lambda -> TODO check that
                     # TODO implement this for the other parts too
                     self.__check_callable(op)
-                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'))
+                    refine = Refine(op=op, minSamples=min(self.maxLength, kwargs.pop('minSamples', 9)),
+                                    strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
                 # check whether the function should be real or not ???
@@ -152,12 +153,14 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 return cp_func(*inputs, **kwargs)
 
             # If we don't have a special implementation we default to evaluating by value!
+            # (start from enough samples to resolve the operands)
+            minSamples = 2 * max([x.n for x in inputs if isinstance(x, trigtech)], default=9)
             if len(inputs) == 1:
                 op = lambda x: numpy_ufunc(inputs[0](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=minSamples)
             elif len(inputs) == 2:
                 op = lambda x: numpy_ufunc(inputs[0](x), inputs[1](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=minSamples)
             else:
                 return NotImplemented
         else:
-- 
2.43.0


From 8286cfb1094705d453342cef817f2aecf15ecf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 026/114] fix: copy Fourier functions (np.copy and fun.prolong)

---
 funpy/trig/trigtech.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 51e3235..db9c18d 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -499,6 +499,11 @@ def argmax(f):
     return np.argmax(f.coeffs)
 
 
+@implements(np.copy)
+def copy(trig):
+    return deepcopy(trig)
+
+
 @implements(np.real)
 def real(trig):
     """ Returns real part of a trigtech """
-- 
2.43.0


From b6cf0b1ff52e2da7b9aac660bbde02a53c77f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 027/114] fix: elementary functions of a Chebyshev function
 start from enough samples

---
 funpy/cheb/chebtech.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 847aedc..3adcf49 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -129,11 +129,13 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 return cp_func(*inputs, **kwargs)
 
             # If we don't have a special implementation we default to evaluating by value!
+            # (start from enough samples to resolve the operands)
+            minSamples = max([17] + [x.n for x in inputs if isinstance(x, chebtech)])
             if len(inputs) == 1:
-                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)),
+                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)), minSamples=minSamples,
                                eps=self.eps, maxLength=self.maxLength)
             elif len(inputs) == 2:
-                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)),
+                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)), minSamples=minSamples,
                                eps=self.eps, maxLength=self.maxLength)
             else:
                 return NotImplemented
-- 
2.43.0


From 0b86fff8bf44cd834693b02acfde8f541329d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 028/114] fix: QR factorisation of a single function

---
 funpy/cheb/qr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index 4070393..b5d93d5 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -21,8 +21,8 @@ def qr(f, eps=1.48e-8):
 
     # If it contains only one column we simply scale
     if m == 1:
-        R = np.sqrt(f.innerproduct(f))
-        Q = f/R
+        R = np.sqrt(np.inner(f, f)).reshape((1, 1))
+        Q = f.coeffs / R
         return Q, R
 
     tol = eps * np.max(f.vscale)
-- 
2.43.0


From f249b650a84922769a1e93ac48d7fdbd9ec9128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 029/114] fix: memoised points and weights are not shared with
 callers and callbacks

---
 funpy/cheb/pts.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..cac1a87 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -2,13 +2,24 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 import numpy as np
-import warnings
 from scipy.fft import ifft
-from functools import lru_cache
+from functools import lru_cache, wraps
+
+
+def cached(maxsize):
+    """ Memoise a function returning an array; callers receive their own copy """
+    def decorator(func):
+        memo = lru_cache(maxsize=maxsize)(func)
+
+        @wraps(func)
+        def wrapper(N):
+            return np.array(memo(N), dtype=float)
+        return wrapper
+    return decorator
 
 
 """ Barycentric weights """
-@lru_cache(maxsize=25)
+@cached(maxsize=25)
 def bary_weights(N):
     c = np.hstack((np.ones(N-1), 0.5))
     c[-2::-2] = -1
@@ -17,10 +28,10 @@ def bary_weights(N):
 
 
 """ Quadrature weights for Curtis-Clenshaw """
-@lru_cache(maxsize=25)
+@cached(maxsize=25)
 def quadwts(N):
     if N == 0:
-        return np.empty()
+        return np.empty(0)
     elif N == 1:
         return np.array([2.])
 
@@ -75,7 +86,7 @@ def barymat(y, x, w):
         return barymat_impl(y, x, w)
 
 
-@lru_cache(maxsize=25)
+@cached(maxsize=25)
 def chebpts_type1_compute(N):
     if N == 0:
         return []
@@ -85,7 +96,7 @@ def chebpts_type1_compute(N):
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * N))
 
 
-@lru_cache(maxsize=25)
+@cached(maxsize=25)
 def chebpts_type2_compute(N):
     if N == 0:
         return []
-- 
2.43.0


From 9b217df99031808c8ca3276829ce23a4815cfd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 030/114] fix: barycentric matrices do not touch the process
 wide warning filters

---
 funpy/cheb/pts.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index cac1a87..eab4ef0 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -80,9 +80,8 @@ def barymat_impl(y, x, w):
 
 def barymat(y, x, w):
     # don't warn in this function since we deal with those warnings
-    with warnings.catch_warnings():
-        warnings.filterwarnings('ignore', r'divide by zero')
-        warnings.filterwarnings('ignore', r'invalid value encountered')
+    # (warnings.catch_warnings would change the process wide filters)
+    with np.errstate(divide='ignore', invalid='ignore'):
         return barymat_impl(y, x, w)
 
 
-- 
2.43.0


From 0a0340029af816e19b51d2b9f863db13756cd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 031/114] fix: memoised conversion and differentiation matrices
 are not shared with callers

---
 funpy/colloc/ultraS/matrices.py  | 11 ++++-------
 funpy/colloc/ultraS/transform.py | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index c96261d..1bd34b4 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -3,7 +3,6 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 import scipy.sparse as sps
-from functools import lru_cache
 
 try:
     from scipy.sparse import csr_array, csc_array, lil_array
@@ -21,9 +20,7 @@ from ..sparse.csr import delete_rows_csr, eliminate_zeros
 from ..sparse.csc import delete_cols_csc
 
 from .transform import sptoeplitz_fast, sphankel
-from .transform import spconvert, spconvert_inv
-
-CACHE_SIZE = 25
+from .transform import spconvert, spconvert_inv, cached_matrix
 
 
 def zeromat(shape, format='csr'):
@@ -35,7 +32,7 @@ def zeromat(shape, format='csr'):
         raise RuntimeError("Unsupported matrix format {0:s}.".format(format))
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def diffmat(n, m=1, format=None):
     """ Differentiation matrices for ultraspherical spectral method """
     if m > 0:
@@ -49,7 +46,7 @@ def diffmat(n, m=1, format=None):
         return NotImplemented
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def convertmat(n, K1, K2, format=None):
     """ Conversion matrix used in the ultraspherical spectral method.
 
@@ -68,7 +65,7 @@ def convertmat(n, K1, K2, format=None):
     return S
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def convertmat_inv(n, K1, K2, format=None):
     """ Conversion matrix from C^{K2 + 1} -> C^{K1} """
     S = eye(n, format=format)
diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..cd200e1 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -3,12 +3,23 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 import scipy.linalg as LA
-from functools import lru_cache
+from functools import lru_cache, wraps
 from scipy.sparse import spdiags, csr_matrix, diags
 
 CACHE_SIZE = 25
 
 
+def cached_matrix(func):
+    """ Memoise a function returning a sparse matrix; callers receive their own copy """
+    memo = lru_cache(maxsize=CACHE_SIZE)(func)
+
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        mat = memo(*args, **kwargs)
+        return mat if mat is NotImplemented else mat.copy()
+    return wrapper
+
+
 def find(array):
     """ Returns row, col, v """
     if len(array.shape) == 1:
@@ -89,7 +100,7 @@ def sphankel(r, format=None):
     return spdiags(B, ic, n, n).tocsr()[:, ::-1]
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def spconvert(n, lam, format=None):
     """ Compute sparse representation for the conversion operator
 
@@ -106,7 +117,7 @@ def spconvert(n, lam, format=None):
                        [0, 2], n, n, format=format)
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def spconvert_inv(n, lam, format=None):
     """ Computes sparse representation of the conversion operator from
 
-- 
2.43.0


From cb75c214ef2aeaf8d79668e85b5a526ac1f252c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 032/114] fix: converting ultraspherical coefficients must not
 overwrite them

---
 funpy/ultra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index 0084bd4..a243a86 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -92,7 +92,7 @@ def scl(lam, n):
 
 def ultra2ultra(c, lam_in, lam_out):
     n = len(c) - 1
-    c /= scl(lam_in, n)[:, None]
+    c = c / scl(lam_in, n)[:, None]
     c = jac2jac(c, lam_in - 0.5, lam_in - 0.5, lam_out - 0.5, lam_out - 0.5)
     c *= scl(lam_out, n)[:, None]
 
-- 
2.43.0


From 2fd7279e1434f7cdb8ce5d9026dc1382e497cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 033/114] fix: never start sampling Fourier functions below 9
 samples

---
 funpy/trig/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index 7076e0b..d1198ed 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -14,7 +14,7 @@ def expand(array, axis=1):
 """ Base class for resampling and refining operations  """
 class RefineBase(object):
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = kwargs.pop('minSamples', 9)
+        self.minSamples = max(9, kwargs.pop('minSamples', 9))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), dtype='complex', order='F')
-- 
2.43.0


From 67f380c4ecf6979ce613d8658c27391ef67f8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 034/114] fix: refuse to combine functions on different
 intervals, whichever is larger

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index e77b817..3860ac0 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -165,7 +165,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From 5a2fc9565c9dbf135b38e67ff7aec068ba77d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 035/114] fix: save and load Fourier functions

---
 funpy/trig/trigtech.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index db9c18d..c5bd8bb 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -106,6 +106,17 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             assert False, 'Don\'t know what to do with this!'
 
+    @classmethod
+    def from_hdf5(cls, hdf5_file):
+        fun = cls(coeffs=np.asfortranarray(hdf5_file[:]),
+                  eps=hdf5_file.attrs["eps"], vscale=hdf5_file.attrs["vscale"])
+        fun.hscale = hdf5_file.attrs["hscale"]
+        fun.maxLength = hdf5_file.attrs["maxLength"]
+        fun.ishappy = hdf5_file.attrs["ishappy"]
+        fun.isReal = np.asarray(hdf5_file.attrs["isReal"], dtype=bool)
+        fun.values[:, fun.isReal] = np.real(fun.values[:, fun.isReal])
+        return fun
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
@@ -471,6 +482,17 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 np.all(self.coeffs == other.coeffs) and \
                 np.all(self.values == other.values)
 
+    """ I/O support """
+    def writeHDF5(self, fh):
+        # Write the coefficients
+        fd = fh.create_dataset('poly', data=self.coeffs)
+        fd.attrs["eps"] = self.eps
+        fd.attrs["hscale"] = self.hscale
+        fd.attrs["vscale"] = self.vscale
+        fd.attrs["maxLength"] = self.maxLength
+        fd.attrs["ishappy"] = self.ishappy
+        fd.attrs["isReal"] = self.isReal
+
 
 def implements(np_function):
     """ Register an __array_function__ implementation """
-- 
2.43.0


From 4ae8fba5653ecc3522dec52597e2aa5e291f549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 036/114] fix: weighted inner product of states calls the one
 of functions, not itself

---
 funpy/vectorspaces/base_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 3711f54..1e61d29 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,8 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax, innerw
+from ..fun import norm2, minandmax
+from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
 
@@ -381,7 +382,7 @@ def innerw(state1, state2):
     inner = 0.0
     n, m = state1.fshape
     for i in range(n):
-        ip = state1.weights[i] * innerw(state1.funcs[i], state2.funcs[i])
+        ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
         inner += np.sum(ip)
 
     for i in range(m):
-- 
2.43.0


From c1797399ff85e79f10f6f660e4df8b6a392a61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 037/114] fix: real, imag and conj of states visit every
 function and every parameter

---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 1e61d29..c905271 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -397,10 +397,10 @@ def real(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.real(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -412,10 +412,10 @@ def imag(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.imag(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -427,10 +427,10 @@ def conj(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.conj(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
-- 
2.43.0


From ea16caf4fad4eeadf9858ea0958092b17c34a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 038/114] fix: every parameter of a state is removed from its
 namespace

---
 funpy/vectorspaces/base_state.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index c905271..d068aa0 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -63,12 +63,9 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
 
     def sync_ns(self):
         # Remove reals[0] name from ns
-        try:
-            # Delete the names of the parameters from the namespace!
-            for r in self.reals:
-                del self.ns[r.name]
-        except KeyError:
-            pass
+        # Delete the names of the parameters from the namespace!
+        for r in self.reals:
+            self.ns.pop(r.name, None)
 
     @property
     def number_real(self):
-- 
2.43.0


From 3daec454786ab0e2b277f532f87835a6debc416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 039/114] fix: results and copies of states have their own
 weights and namespace

---
 funpy/vectorspaces/base_state.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index d068aa0..119e4af 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -240,7 +240,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 funcs=deepcopy(self.funcs, memo),
                 reals=deepcopy(self.reals, memo),
-                weights=self.weights,
+                weights=deepcopy(self.weights, memo),
                 ns=deepcopy(self.ns, memo))
             memo[id_self] = _copy
         return _copy
@@ -298,7 +298,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return type(self)(funcs=nfuncs, reals=nreals,
+                                  weights=np.copy(self.weights), ns=deepcopy(self.ns))
         else:
             return NotImplemented
 
@@ -400,7 +401,8 @@ def real(state):
     for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.imag)
@@ -415,7 +417,8 @@ def imag(state):
     for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.conj)
@@ -430,7 +433,8 @@ def conj(state):
     for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.sum)
-- 
2.43.0


From af457ec6fbac2067fd1fb84f7be5213a256aa56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 040/114] fix: zero and one states keep weights and namespace

---
 funpy/vectorspaces/base_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 119e4af..bbf1120 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -323,7 +323,8 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.ones_like)
@@ -337,7 +338,8 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals,
+                       weights=np.copy(state.weights), ns=deepcopy(state.ns))
 
 
 @implements(np.dot)
-- 
2.43.0


From 0977789ccdbb406d3ba82d12ca1285eeffd5368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 041/114] fix: construct the projection operator (shape of a
 pylops operator is read-only)

---
 funpy/colloc/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/projection.py b/funpy/colloc/projection.py
index be2e350..df65a9d 100644
--- a/funpy/colloc/projection.py
+++ b/funpy/colloc/projection.py
@@ -11,13 +11,13 @@ class RectangularProjection(LinearOperator):
         in collocating differential operators.
     """
     def __init__(self, matrix, adjoint=None, dtype=None, *args, **kwargs):
+        super().__init__(dtype=np.dtype(dtype), shape=matrix.shape)
+
         # The projection matrix
         self.mat = matrix
         self.adj = adjoint
 
         # Basic setup for the linear operator
-        self.shape = self.mat.shape
-        self.dtype = np.dtype(dtype)
         self.explicit = False
 
     def _matvec(self, x):
-- 
2.43.0


From b29aadecd3ea77cbf63f607245a0693fd3a1df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 042/114] fix: row deletion accepts sparse arrays, not only
 sparse matrices

---
 funpy/colloc/sparse/csr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..d4ef96c 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -19,7 +19,7 @@ def csr_vappend(a, b):
 
 
 def delete_row_csr(mat, i):
-    if not isinstance(mat, sps.csr_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +37,7 @@ def delete_rows_csr(mat, indices):
     """
         Deletes rows in indices from a csr sparse matrix
     """
-    if not isinstance(mat, sps.csr_matrix):
+    if not (sps.issparse(mat) and mat.format == 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     indices = list(indices)
     mask = np.ones(mat.shape[0], dtype=bool)
@@ -49,7 +49,7 @@ def eliminate_zeros(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not (isinstance(mat, sps.csr_matrix) or isinstance(mat, sps.csc_matrix)):
+    if not (sps.issparse(mat) and mat.format in ('csr', 'csc')):
         raise ValueError("Work only for CSR / CSC format -- use .tocsr() or .tocsc() first!")
 
     if eps is None:
-- 
2.43.0


From f6538e1516f490de6845d5d1e8a054068eea8d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 043/114] fix: multiplication by a constant Fourier function
 (np.asscalar is gone)

---
 funpy/colloc/trigspec/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 2318ffe..453fd49 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -50,7 +50,7 @@ def multmat(k, f, format=None):
     # Multiplication using a scalar is simple!
     if n == 1:
         # the function f is a scalar
-        return np.asscalar(c) * eye(k)
+        return c.item() * eye(k)
 
     # Deal with the even case
     if np.remainder(n, 2) == 0:
-- 
2.43.0


From 78a9c0ff5274b862918c47e1e08718c9d6f475b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 044/114] fix: exact linear solver converts pylops operators

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..e91da12 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -18,7 +18,7 @@ class ExactLinearSolver:
         self.to_fun = to_fun
 
         # Is the matrix sparse?
-        if isinstance(A, LAS.LinearOperator): A = A.to_matrix()
+        if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
         # What linear method are we using?
-- 
2.43.0


From c4e48356f62807b03f9c0f6d9a9708dd789e97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 045/114] fix: apply the linearised operator through the public
 sparse interface

---
 funpy/newton/FrechetDeflated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..ab7bed9 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,17 +50,17 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat.dot(x)
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * self.mat.dot(x) + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
-        return self.eta * self.adj._mul_vector(y)
+        return self.eta * self.adj.dot(y)
 
     def to_matrix(self):
         """ Faster than tosparse -> since whenever we are not deflating we
-- 
2.43.0


From d7e5b04a5bb0615b7a38a2d87ce65342e7effc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 046/114] fix: GIANT returns the converged iterate, not the one
 before it

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..ab3626a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From 191130eb0bd480285348a21fa3b00ebe7d06d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 047/114] fix: nonlinear solvers and gbit must not overwrite
 the initial guess

---
 funpy/linalg/gbit.py            | 1 +
 funpy/newton/giant.py           | 2 +-
 funpy/newton/newton_standard.py | 2 +-
 funpy/newton/nleq_err.py        | 2 +-
 funpy/newton/qnerr.py           | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 4b3cd92..b2ffa46 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -51,6 +51,7 @@ def gbit(A, P, b, y=None,
 
     # copy initial guess
     y0 = deepcopy(y)
+    y = deepcopy(y0)
 
     # MAIN iteration loop!
     success = False
diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index ab3626a..7a73a11 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -145,7 +145,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         if normdx <= xtol:
             newton_success = True
             precision = normdx
-            x += dx
+            x = x + dx
             k += 1
             break
 
diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..736b67e 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -68,7 +68,7 @@ def newton_standard(NewtonSystem, x, linear_solver='lu',
         normdx = norm(dx)
 
         # NEXT STEP
-        x += dx
+        x = x + dx
         k += 1
 
         if debug:
diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..ee80259 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -102,7 +102,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
 
         # Solution found if condition here true
         if normdx <= tol:
-            x += dx
+            x = x + dx
             k += 1
             newton_success = True
             break
diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..4c6ed98 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -98,7 +98,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
     while not newton_success and k <= miter:
         if not skipstep:
-            x += dx[k]
+            x = x + dx[k]
 
             if sigma[k] <= tol * tol:
                 k += 1
-- 
2.43.0


From 169ea4b291fc75a607f909495c5d106e018d75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 048/114] fix: newton_standard warns instead of raising
 NameError when the linear solve fails

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index 736b67e..add61ba 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From e1b5587698e4ddd3f8ef50435243f96c0e5d11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 049/114] fix: stand-alone qnerr returns all values on failure
 and starts from the squared norm

---
 funpy/newton/qnerr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 4c6ed98..2ab61b4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,10 +69,10 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From 5bc4b543b1b29d96ee2b879d774243233408cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 050/114] fix: nleq_err stops when the callback asks for it
 during quasi-Newton steps

---
 funpy/newton/nleq_err.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index ee80259..907ba13 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -60,6 +60,15 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
     n       = 0
     fxk     = None
 
+    # Remember whether the callback asked us to stop (also during qnerr steps)
+    callback_stop = False
+
+    def monitored(*cb_args):
+        nonlocal callback_stop
+        success_callback = callback(*cb_args)
+        callback_stop = callback_stop or not success_callback
+        return success_callback
+
     # Should we execute a Quasi-Newton error iterations?
     qnerr_iter = False
 
@@ -227,7 +236,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
             # if qnerr_iter failed we try to continue with NLEQ_ERR!
             x, success, kp, normdx, neval_p, _ = qnerr(
                 nsystem, x, itr=k, dx0=dx, tol=tol, dtype=dtype,
-                inner=inner, callback=callback,
+                inner=inner, callback=monitored,
                 precond=precond, theta_max=theta_max, miter=miter-k+1,
                 nleqcalled=True, op_kwargs=op_kwargs, *args, **kwargs)
 
@@ -238,6 +247,10 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
             if not success:
                 qnerr_iter = False
 
+            if callback_stop:
+                newton_success = False
+                break
+
             # Recompute the right hand side since the solution has changed now!
             fxk[:] = nsystem.rhs(x)
             normfk = norm(fxk)
-- 
2.43.0


From 214f30dbde99640db3999ef2f7ddf243bc11367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 051/114] fix: GIANT honours the iteration limit and the
 callback it is given

---
 funpy/newton/giant.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index 7a73a11..bbe36af 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -19,7 +19,8 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
                adaptmode=Adaptmode.QUADRATIC,
                inner=lambda x, y: np.inner(x, y),
                rescale=False, precision=np.finfo(float).eps,
-               dtype=float, delta_bar=1.0e-3, *args, **kwargs):
+               dtype=float, delta_bar=1.0e-3,
+               callback=lambda *args: True, miter=None, *args, **kwargs):
     """
     GIANT-GBIT: Nonlinear solver.
     """
@@ -29,6 +30,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
     lambda_start       = {'mildly': 1.0, 'highly': 1.0e-2, 'extremely': 1.0e-4}
     lambda_min_default = {'mildly': 1.0e-4, 'highly': 1.0e-4, 'extremely': 1.0e-8}
 
+    if miter is not None: max_iter = miter
     debug      = kwargs.pop('debug', False)
     xtol       = tol
     lam        = lambda_start[nonlin]
@@ -224,5 +226,10 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         # FINAL RETURN NEW ACCEPTED ITERATE
         x = xkp1
 
+        # callback
+        if not callback(nsystem, k, dx, lam * normdx, theta):
+            warnings.warn('GIANT failed callback indicates STOP after {0:d} iterations!'.format(k))
+            break
+
     # MAIN LOOP DONE
     return x, newton_success, k, njac, nsystem
-- 
2.43.0


From 524a389ffd10bf3da99cb1c0a54840ef22053d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 052/114] fix: NewtonSeeker unpacks the results of nleq_err

---
 funpy/newton/newton_seeker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index 78c3fd0..b29624f 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -50,12 +50,12 @@ class NewtonSeeker(NewtonBase):
         method = method.lower()
         if method == 'giant':
             un, success, iteration, self.neval, sys = giant_gbit(
-                LinOp, istate, miter=miter, inner=np.dot,
+                LinOp, istate, miter=miter, inner=np.dot, dtype=self.dtype,
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-            un, success, iteration, self.neval, sys = nleq_err(
-                LinOp, istate, miter=miter, inner=np.dot,
+            un, success, iteration, self.normdx, self.neval, sys = nleq_err(
+                LinOp, istate, miter=miter, inner=np.dot, dtype=self.dtype,
                 *args, **kwargs)
 
         else:
-- 
2.43.0


From 7bdf8bd4e8031f94836b2a1b85f6b1eec1bac1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 053/114] fix: real part of a negative trig function is not
 zero

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index c5bd8bb..3ff6889 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -533,7 +533,7 @@ def real(trig):
         return deepcopy(trig)
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From 1791ecaed768a1cf027f6563cc3a3bc8a5756f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 054/114] fix: adaptive driver does not prolong the caller's
 state

---
 funpy/colloc/adapt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/colloc/adapt.py b/funpy/colloc/adapt.py
index 592206f..e670ac4 100644
--- a/funpy/colloc/adapt.py
+++ b/funpy/colloc/adapt.py
@@ -45,6 +45,8 @@ class SolverAdaptive:
             Arguments:
                 state -> Must be of BaseState type.
         """
+        # The resolution changes below are applied in place; leave the caller's state alone.
+        state = deepcopy(state)
         lower_bd = state.shape[0]
         upper_bd = 2**int(np.log2(findNextPowerOf2(lower_bd)) + max(up_steps - 1, 0))
         n_its = self.n_disc(lower_bd=lower_bd, upper_bd=upper_bd, *args, **kwargs)
-- 
2.43.0


From 10f65d85ef3d5fb925b5797c75ad96397bd96cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 055/114] fix: deep copy of a ChebOp keeps operators,
 resolution and tolerances

---
 funpy/colloc/chebOp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 77f14c5..b4c6f08 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -228,17 +228,19 @@ class ChebOp:
                 debug=self.debug,
                 functions=deepcopy(self.function_names),
                 constant_functions=deepcopy(self.constant_function_names),
-                operator=deepcopy(self.operator_names),
+                operators=deepcopy(self.operator_names),
                 kernels=deepcopy(self.kernels),
                 parameters=deepcopy(self.parameter_names),
                 colloc=self.colloc,
-                domain=self.domain,
-                n_disc=self.n_disc,
+                domain=deepcopy(self.domain),
+                n=self.n_disc,
+                n_min=self.n_min,
                 eqn=deepcopy(self.eqn),
                 constraints=deepcopy(self.cts),
                 bc=deepcopy(self.bcs),
                 ftype=self.ftype,
-                cpar=self.cpar,
+                cpar=deepcopy(self.cpar),
+                eps=self.eps,
                 tol=self.lin_tol,
                 diff_order=self.diffOrder,
                 linear=self.linear
-- 
2.43.0


From b6b2a447164941987f0b0928b462caeae3490490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 056/114] fix: compose works on every interval

---
 funpy/fun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 3860ac0..2e9eb06 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -341,8 +341,7 @@ def compose(f, op, g=None, ftype=None):
     if ftype is None:
         ftype = f.type
 
-    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop,
-               compose=False)
+    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop)
 
 
 def qr(f, *args, **kwargs):
-- 
2.43.0


From d5fb084754a0980dffe3b22e301a7a36a4419ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 057/114] fix: trig dot sums over the columns like the
 Chebyshev one

---
 funpy/trig/trigtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 3ff6889..d429ef0 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -713,7 +713,8 @@ def innerw(trig1, trig2, weighted=False):
 
 @implements(np.dot)
 def dot(cheb1, cheb2):
-    return inner(cheb1, cheb2)
+    rval = inner(cheb1, cheb2)
+    return np.sum(np.diagonal(rval)).item() if rval.size > 1 else rval
 
 
 def diffmat(self, n, k=1):
-- 
2.43.0


From 95a607b25bbd3c526a4e2c607831af5eeba3520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 058/114] fix: fliplr copies the coefficients

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 3adcf49..8ee4197 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -381,7 +381,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def fliplr(self):
         """ Flip columns of an array-valued chebtech object. """
-        return chebtech(coeffs=np.fliplr(self.coeffs), eps=self.eps,
+        return chebtech(coeffs=np.array(np.fliplr(self.coeffs), order='F'), eps=self.eps,
                        hscale=self.hscale, simplify=False,
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
-- 
2.43.0


From 6541a2c5debd22a28a13b9bf8567da12fe7e9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 059/114] fix: trig prolong replaces coefficients and values
 together

---
 funpy/trig/trigtech.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index d429ef0..0243bf1 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -289,9 +289,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             Nin += 1
 
         if Nin == Nout:
-            self.coeffs = np.asfortranarray(coeffs)
-            self.values = coeffs2vals(self.coeffs)
-            self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
+            coeffs = np.asfortranarray(coeffs)
+            values = coeffs2vals(coeffs)
+            values[:, self.isReal] = np.real(values[:, self.isReal])
+            self.coeffs, self.values = coeffs, values
 
         # Pad with zeros
         if Nout > Nin:
@@ -300,20 +301,22 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             coeffs = np.vstack((np.zeros((kup, coeffs.shape[1])),
                                 coeffs,
                                 np.zeros((kdown, coeffs.shape[1]))))
-            self.coeffs = np.asfortranarray(coeffs)
-            self.values = coeffs2vals(self.coeffs)
-            self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
+            coeffs = np.asfortranarray(coeffs)
+            values = coeffs2vals(coeffs)
+            values[:, self.isReal] = np.real(values[:, self.isReal])
+            self.coeffs, self.values = coeffs, values
 
         # chop coefficients
         if Nout < Nin:
             kup = np.floor((Nin-Nout)/2).astype(int)
             kdown = np.ceil((Nin-Nout)/2).astype(int)
-            coeffs = coeffs[kup:-kdown, :]
+            coeffs = np.copy(coeffs[kup:-kdown, :])
             if kup < kdown:
                 coeffs[0, :] = 2*coeffs[0, :]
-            self.coeffs = np.asfortranarray(coeffs)
-            self.values = coeffs2vals(self.coeffs)
-            self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
+            coeffs = np.asfortranarray(coeffs)
+            values = coeffs2vals(coeffs)
+            values[:, self.isReal] = np.real(values[:, self.isReal])
+            self.coeffs, self.values = coeffs, values
 
         return self
 
-- 
2.43.0


From fc936ce8b33bc8b47920c874c99905507efab8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 060/114] fix: chopping Fourier coefficients does not scale the
 operand

---
 funpy/trig/trig_simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index 79559b1..68044bc 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -43,7 +43,7 @@ def prolong(coeffs, Nout, isReal=None):
     if Nout < Nin:
         kup = np.floor((Nin-Nout)/2).astype(int)
         kdown = np.ceil((Nin-Nout)/2).astype(int)
-        coeffs = coeffs[kup:-kdown, :]
+        coeffs = np.copy(coeffs[kup:-kdown, :])
         if kup < kdown:
             coeffs[0, :] = 2*coeffs[0, :]
 
-- 
2.43.0


From 5565d8399581e94069295bb3a3df032cd5521dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 061/114] fix: cumsum of a multi-column Chebyshev function

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 8ee4197..6ee450a 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -557,7 +557,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From 9b1c00b9c547dd6e2bf691a4462a70ff34de290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 062/114] fix: restrict a constant or multi-column function

---
 funpy/cheb/chebtech.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 6ee450a..3b330f2 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -313,13 +313,10 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         # compute values on new grid
         y = 0.5 * np.vstack((1-self.x, 1+self.x)).T @ np.vstack((s[:-1], s[1:]))  # new grid
-        values = self.feval(y.flatten())  # values on new grid
+        values = clenshaw(y.flatten(order='F'), self.coeffs)  # values on new grid
 
-        # must rearrange the order of columns
-        if m > 1:
-            numCols = m * numInts
-            index = np.reshape(np.reshape(np.arange(numCols), (numInts, m)).T, numCols)
-            values = values[:, index]
+        # one block of columns per sub-interval
+        values = np.asfortranarray(np.hstack(np.split(np.asarray(values), numInts)))
 
         # generate new coefficients
         coeffs = polyfit(values)
-- 
2.43.0


From 8e4b7ab118eb27b19ab1752ac9cfe127757fb1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 063/114] fix: qr of several columns returns contiguous
 coefficients

---
 funpy/cheb/qr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index b5d93d5..9b960aa 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -52,6 +52,6 @@ def qr(f, eps=1.48e-8):
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
-    return coeffs[:newN//2+1, :], R
+    return np.asfortranarray(coeffs[:newN//2+1, :]), R
     #Q = chebtec(coeffs=coeffs[:newN//2+1, :], interval=f.interval, simplify=False)
     return Q, R
-- 
2.43.0


From 3c60af00f7383220c243ab495e1cd02f8f88eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 064/114] fix: Chebyshev powers of short functions are not
 truncated to nine samples

---
 funpy/cheb/refine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 8d2d125..32001e3 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -25,7 +25,8 @@ class FunctionContainer:
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = max(9, kwargs.pop('minSamples', 9))
+        # the happiness check can not judge fewer than 17 samples
+        self.minSamples = max(17, kwargs.pop('minSamples', 17))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), order='F')
-- 
2.43.0


From 8850d91e9fed135c558680a4870088f93df56b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 065/114] fix: inner product of trig functions with different
 numbers of columns

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 0243bf1..3f70835 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -700,7 +700,7 @@ def inner(trig1, trig2, weighted=False):
     out = np.matmul(fvalues.T * w, np.conj(gvalues))
 
     # FIXME for array valued trigtechs!
-    if np.all(trig1.isReal * trig2.isReal):
+    if np.all(trig1.isReal) and np.all(trig2.isReal):
         out = np.real(out)
 
     # Force non-negative output when the inputs are the same
-- 
2.43.0


From aac6133ba3468dd8906a4700deffe1996cdce61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 066/114] fix: adding an array of constants to a trig function

---
 funpy/trig/ufuncs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 3d5413d..4d528e1 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -48,15 +48,14 @@ def add(x1, x2, **kwargs):
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
         c = np.copy(x1.coeffs, order='F')
-        v = np.copy(x1.values, order='F')
         other = np.asanyarray(x2, order='F')
 
         # simply add to the values
-        v += other
+        v = np.asfortranarray(x1.values + other)
 
         # Update coefficients
-        if other.shape and other.shape[1] > 1 and x1.m == 1:
-            c = np.tile(x1.coeffs, (1, other.shape[1]))
+        if other.size > 1 and x1.m == 1:
+            c = np.asfortranarray(np.tile(x1.coeffs, (1, other.size)))
 
         n = x1.n
         # determine index of constant coefficient term
@@ -65,7 +64,7 @@ def add(x1, x2, **kwargs):
         else:
             const_index = n//2
 
-        c[const_index, :] += other
+        c[const_index, :] += other.squeeze()
 
         # update is real
         # TODO FIX THE EPS HERE!
-- 
2.43.0


From 5eaa415d5ac85231d4c8b4c4989a8b02741082ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 067/114] fix: the root of a linear function outside the
 interval is not a root

---
 funpy/cheb/detail.pyx | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..7f379fa 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -514,26 +514,22 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
     # print('n:', n)
 
     # Trivial return type
-    r = []
+    r = np.zeros(0)
 
     # Trivial cases
     if n == 0:
-        r = [0]
+        r = np.zeros(1)
 
     elif n == 1:
         if c[0] == 0:
-            r = [0]
-        else:
-            r = []
+            r = np.zeros(1)
 
     elif n == 2:
-        r = [-c[0] / c[1]]
+        r = np.array([-c[0] / c[1]])
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
-                r = []
-            else:
-                r = [max(min(np.real(r), 1), -1)]
+        if not all_roots:
+            # only the root in [-1, 1]
+            r = np.clip(r[np.abs(r) <= 1 + htol], -1, 1)
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
-- 
2.43.0


From 8f608bf29a6efcae517a4667a2cabc9ee22d6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 068/114] fix: chopping is relative to the size of the function

---
 funpy/cheb/chebtech.py | 3 ++-
 funpy/cheb/detail.pyx  | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 3b330f2..9873af0 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -253,7 +253,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def happy(self, eps=None):
         eps = self.eps if eps is None else eps
-        tol = np.maximum(self.hscale, self.vscale) * eps * np.ones(self.m)
+        # standardChop works relative to the size of the coefficients
+        tol = self.hscale * eps * np.ones(self.m)
         self.ishappy, cutoff = happiness_check(self.coeffs, tol)
         # cutoff is the last entry to keep -> increment by one.
         return bool(self.ishappy), cutoff+1
diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7f379fa..a921029 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -244,8 +244,8 @@ cpdef standardChop(double[::1] coeffs, double tol, Py_ssize_t minimum=17):
         cutoff = 0
         return cutoff
 
-    # normalize - envelop function
-    for j in range(n):
+    # normalize - envelop function (the first entry is the divisor: last)
+    for j in range(n-1, -1, -1):
         envelop[j] /= envelop[0]
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
@@ -332,8 +332,8 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
         cutoff = 0
         return cutoff
 
-    # normalize - envelop function
-    for j in range(n):
+    # normalize - envelop function (the first entry is the divisor: last)
+    for j in range(n-1, -1, -1):
         envelop[j] /= envelop[0]
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
-- 
2.43.0


From 9ad481e35e7657a15af849b074c836f23ab0ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 069/114] fix: the trig happiness check looks at the modes of
 both signs

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 3f70835..0c77949 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -344,7 +344,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
             # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            cutoff[k] = standardChopCmplx(np.asfortranarray(coeffs[:, k], dtype=complex), tol[k], minimum=33)
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-- 
2.43.0


From 443c3510d023bcd3c565aba3cad6ccc07d5a0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 070/114] fix: a constant trig function has complex
 coefficients like any other

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 0c77949..b61d9b1 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -48,7 +48,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 if len(op.shape)==1:
                     op = np.expand_dims(op, axis=1)
                 self.values = op.astype(complex)
-                self.coeffs = vals2coeffs(op)
+                self.coeffs = vals2coeffs(self.values)
 
                 # we are always happy
                 self.ishappy = True
-- 
2.43.0


From 28cc1dd6cde65d5ca2af46542c5f94b416982de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 071/114] fix: the coefficient of a constant trig function is
 complex like any other

---
 funpy/trig/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/transform.py b/funpy/trig/transform.py
index d0ce806..2c259ae 100644
--- a/funpy/trig/transform.py
+++ b/funpy/trig/transform.py
@@ -33,7 +33,7 @@ def vals2coeffs(values):
     n = values.shape[0]
 
     if n <= 1:
-        return np.copy(values, order='F')
+        return np.array(values, dtype=complex, order='F')
 
     # test for symmetry
     vals = np.vstack((values, values[0, :]))
-- 
2.43.0


From 6e073278f398df47668e2f684d23285c1d6b24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 072/114] fix: the values of a product of trig functions stay
 complex

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 4d528e1..08423bc 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -232,7 +232,7 @@ def multiply(x1, x2, **kwargs):
         # TODO
         if pos:
             # when the product should be positive make sure it is after call to simplify
-            v = np.abs(v)
+            v = np.abs(v).astype(complex)
             c = vals2coeffs(v)
             is_real = np.ones(c.shape[1]).astype(bool)
         else:
-- 
2.43.0


From 52b9be8e26025e3489213ba2b29fa6054c58703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 073/114] fix: third derivative matrix of the Fourier
 collocation has the right sign

---
 funpy/colloc/trigcolloc/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index e640b95..e369f88 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -67,7 +67,7 @@ def diffmat(n, m=1, format=None):
             csc_cot = (1. / np.sin(0.5 * v * h)**2) * (1. / np.tan(0.5 * h * v))
             column = np.hstack((0, 3./4 * csc_cot - np.pi**2 / 2 / h**2 / np.tan(0.5 * h * v)))
 
-        column[::2] *= -1.0
+        column[1::2] *= -1.0
         row = column[np.roll(np.arange(n)[::-1], 1)]
         D = LA.toeplitz(column, row)
 
-- 
2.43.0


From 93b79e1ebaa04de6b4b538844f372dde28693830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 074/114] fix: a state whose saving was interrupted does not
 load with part of its namespace

---
 funpy/vectorspaces/base_state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index bbf1120..14bba27 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -196,6 +196,12 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         fh.create_dataset('weights', data=self.weights)
         fh.create_dataset('signature', data=np.asarray(self.signature, dtype=int))
 
+        # Write the namespace. A state without all its functions and parameters
+        # cannot be loaded, hence write these last: a state whose writing was
+        # interrupted must not load with an incomplete namespace.
+        grp = fh.create_group('ns')
+        self.ns.writeHDF5(grp)
+
         for i, func in enumerate(self.funcs):
             grp = fh.create_group('funcs{}'.format(i))
             func.writeHDF5(grp)
@@ -204,10 +210,6 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             grp = fh.create_group('reals{}'.format(i))
             real.writeHDF5(grp)
 
-        # Write the namespace
-        grp = fh.create_group('ns')
-        self.ns.writeHDF5(grp)
-
     """ Internal interface """
     def __array__(self):
         # State is (x, phi, a, b)
-- 
2.43.0


From abbd7a5074628dd3cd53faffcba5787854f8352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 075/114] fix: loading an unresolved Chebyshev function does
 not mark it resolved

---
 funpy/cheb/chebtech.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 9873af0..e679522 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -73,8 +73,10 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         hscale = hdf5_file.attrs["hscale"]
         maxLength = hdf5_file.attrs["maxLength"]
         ishappy = hdf5_file.attrs["ishappy"]
-        return cls(coeffs=coeffs, eps=eps, hscale=hscale, maxLength=maxLength,
-                   ishappy=ishappy, simplify=False)
+        fun = cls(coeffs=coeffs, eps=eps, hscale=hscale, maxLength=maxLength,
+                  ishappy=ishappy, simplify=False)
+        fun.ishappy = ishappy
+        return fun
 
     @classmethod
     def from_values(cls, values, *args, **kwargs):
-- 
2.43.0


From 715b5818eb99dfd1afd6040df687f58692cf2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 076/114] fix: GIANT does not break down when the simplified
 correction is exactly zero

---
 funpy/linalg/gbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index b2ffa46..ac2c4b9 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -111,7 +111,7 @@ def gbit(A, P, b, y=None,
 
             if giant_simple:
                 normdiff = norm(y - y0)
-                stop_iter = False if normdiff == 0.0 else (epsilon / normdiff <= rho * errtol)
+                stop_iter = (epsilon == 0.0) if normdiff == 0.0 else (epsilon / normdiff <= rho * errtol)
             else:
                 stop_iter = epsilon <= rho * normyip1 * errtol
 
-- 
2.43.0


From a104dec268649ab28be41b48f1f4764b946daae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 077/114] fix: ChebOp.solve does not prolong the caller's
 starting state

---
 funpy/colloc/chebOp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index b4c6f08..9329adf 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -347,7 +347,7 @@ class ChebOp:
                 i_state, eps=1e2*eps, debug=debug,
                 verbose=verbose, *args, **kwargs)
         else:
-            i_state = i_state.prolong(self.n_disc)
+            i_state = deepcopy(i_state).prolong(self.n_disc)
             precond = False if self.ftype == 'trig' else True
             s_state, success, iterations = newton.solve(
                 i_state, precond=precond, debug=debug, *args, **kwargs)
-- 
2.43.0


From 6145a1d8485072673cef3dac6a8e8a63cdb0f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 078/114] fix: asfun converts between representations when
 given a domain

---
 funpy/fun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 2e9eb06..8486f84 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -301,6 +301,7 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
+        kwargs.pop('domain', None)
         return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
-- 
2.43.0


From 0d4bdcecc6a14c5a94f4b2428c57d8cd02ab0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 079/114] fix: real part of a small periodic function is not
 zero

The threshold below which a real part counts as zero was absolute; functions of
amplitude below 1e-10 lost their real part.
---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index b61d9b1..e4da500 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -536,7 +536,7 @@ def real(trig):
         return deepcopy(trig)
 
     fvalues = np.real(trig.values)
-    if np.all(np.abs(fvalues) < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps * np.max(trig.get_vscale())):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From 96b657a987486095a227640a162f7121bf916c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 080/114] fix: weighted inner product of states has no products
 of different columns

---
 funpy/vectorspaces/base_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 14bba27..7d6b5d8 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -385,7 +385,7 @@ def innerw(state1, state2):
     n, m = state1.fshape
     for i in range(n):
         ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
-        inner += np.sum(ip)
+        inner += np.sum(ip.diagonal()) if ip.ndim == 2 else np.sum(ip)
 
     for i in range(m):
         inner += state1.weights[i+n] * np.inner(state1.reals[i], state2.reals[i])
-- 
2.43.0


From f25d1770b76e9e38dfecfcc788f42eaeaa92b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 081/114] fix: deepcopy of a Fourier function keeps hscale

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index e4da500..4bf4c65 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -124,7 +124,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
                 values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 ishappy=self.ishappy,
                 isreal=self.isReal)
-- 
2.43.0


From 686fe34b22683f79ae3fce27f3af5c7a3d738f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 082/114] fix: the inner iteration of GIANT stops when its
 correction vanishes

When the next direction is exactly zero the iterate solves the system.  Going
on divided by its zero norm (arrays: NaN and a failed solve) or multiplied the
matrix by a state that had lost its coefficients (states: ValueError).
---
 funpy/linalg/gbit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index ac2c4b9..032ecd9 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -115,6 +115,10 @@ def gbit(A, P, b, y=None,
             else:
                 stop_iter = epsilon <= rho * normyip1 * errtol
 
+            # The correction vanished: y solves the system, and there is no direction left
+            if sigma[i+1] == 0.0:
+                stop_iter = True
+
             # Update iteration counters
             iter += 1
             i += 1
-- 
2.43.0


From d9a7ddddfaccf9c2ee9ac96d366c960faa9b4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 083/114] fix: building a function does not copy the callables
 it is given

They only have to be sampled; a callable that can not be copied (a method of
an object with a lock or an open file) could not be used, and a callable with
state was sampled through a copy of that state.
---
 funpy/fun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 8486f84..2c1a487 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -48,8 +48,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
                 return f
 
             op = op if isinstance(op, list) else list([op])
-            orig_op = deepcopy(op)
-            op = [get_op(oop) for oop in orig_op]
+            op = [get_op(oop) for oop in op]
 
         # Note that we still have to turn lone compose lambdas into a list!
         elif op is not None and (callable(op) or all([callable(o) for o in op])):
-- 
2.43.0


From 962313016c7219781937fa2a81cb6f255fbbbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 084/114] fix: a callable that returns the wrong number of
 values is refused

One value for the first half of the points, a row instead of a column, or
another number of columns at a later refinement were taken for samples of a
different (and then "resolved") function, an empty array aborted the process.
A single value stands for a constant, as it does in a list of callables.  The
first samples of a Fourier function are averaged in a copy, not in the array
the callable returned.
---
 funpy/cheb/refine.py | 22 ++++++++++++++++------
 funpy/trig/refine.py | 11 +++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 32001e3..3148302 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -22,6 +22,20 @@ class FunctionContainer:
         return r
 
 
+def samples(values, x, ncols=0):
+    """ What a callable returned at the points x, as an array with one row per point """
+    values = np.asarray(values)
+    if values.size == 1 and values.dtype.kind in 'biufc':  # a constant
+        values = np.full((x.size, 1), values.item())
+    elif values.ndim == 1:
+        values = np.expand_dims(values, axis=1)
+
+    if values.ndim != 2 or values.shape[0] != x.size or (ncols and values.shape[1] != ncols):
+        raise ValueError('The function returned an array of shape %s at %d points!' % (values.shape, x.size))
+
+    return values
+
+
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
@@ -78,9 +92,7 @@ class Refine(RefineBase):
             return self.values, giveUp
 
         x = chebpts_type2_compute(n)
-        self.values = np.real(self.op(x)).astype(np.float64)
-        if self.values.ndim == 1:
-            self.values = np.expand_dims(self.values, axis=1)
+        self.values = np.real(samples(self.op(x), x, self.values.shape[1])).astype(np.float64)
         return self.values, giveUp
 
     """ Resample the function on a nested domain """
@@ -105,9 +117,7 @@ class Refine(RefineBase):
         new_values[0:n:2, :] = self.values
 
         # compute the new values XXX fix this!
-        nv = np.real(self.op(x))
-        if nv.ndim == 1:
-            nv = np.expand_dims(nv, axis=1)
+        nv = np.real(samples(self.op(x), x, self.values.shape[1]))
         new_values[1:-1:2, :] = nv
 
         self.values = new_values
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index d1198ed..7ca3aa4 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -2,15 +2,10 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 import numpy as np
+from ..cheb.refine import samples
 from .trigpts import trigpts
 
 
-def expand(array, axis=1):
-    if len(array.shape) == 1:
-        return np.expand_dims(array, axis=axis)
-    return array
-
-
 """ Base class for resampling and refining operations  """
 class RefineBase(object):
     def __init__(self, op, *args, **kwargs):
@@ -67,7 +62,7 @@ class Refine(RefineBase):
 
         x, _ = trigpts(n)
         x = np.hstack((x, 1))
-        self.values = expand(self.op(x))
+        self.values = np.array(samples(self.op(x), x, self.values.shape[1]))
 
         # compute the average values of f at -/+ 1 and then remove the +1 value
         self.values[0, :] = 0.5 * (self.values[0, :] + self.values[-1, :])
@@ -97,6 +92,6 @@ class Refine(RefineBase):
         new_values[:n:2, :] = self.values
 
         # compute the new values
-        new_values[1::2, :] = expand(self.op(x))
+        new_values[1::2, :] = samples(self.op(x), x, self.values.shape[1])
         self.values = new_values
         return self.values, giveUp
-- 
2.43.0


From cd006ef83f32eed882ad120b12f5aff49189a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 085/114] fix: a function with NaN or infinite coefficients is
 not resolved

The chopping rule compares coefficients; with NaN among few samples of a small
function the comparisons came out as if it was resolved.
---
 funpy/cheb/chebtech.py | 2 ++
 funpy/trig/trigtech.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index e679522..30ab0d2 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -258,6 +258,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         # standardChop works relative to the size of the coefficients
         tol = self.hscale * eps * np.ones(self.m)
         self.ishappy, cutoff = happiness_check(self.coeffs, tol)
+        # comparisons with NaN tell nothing
+        self.ishappy = self.ishappy and bool(np.all(np.isfinite(self.coeffs)))
         # cutoff is the last entry to keep -> increment by one.
         return bool(self.ishappy), cutoff+1
 
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 4bf4c65..c36172e 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -357,7 +357,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             if not ishappy[k]:
                 break
 
-        ishappy = np.all(ishappy)
+        # comparisons with NaN tell nothing
+        ishappy = np.all(ishappy) and np.all(np.isfinite(self.coeffs))
         cutoff  = 2*np.max(cutoff)+1
         self.ishappy = ishappy
         return ishappy, cutoff
-- 
2.43.0


From 73d336c418d0117422e4039cdce972ebde0b45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 086/114] fix: the Fourier test point is passed to the callable
 as an array

Callables are written for arrays of points: assigning by a mask, or returning a
plain number, worked for Chebyshev functions only.
---
 funpy/trig/trigtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index c36172e..6753e21 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -368,7 +368,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         # check at a random point to check whether result is complex and if
         # values is a NaN or Inf
         pseudoRand = 0.376989633393435
-        rndVal = callable(np.asarray(2 * pseudoRand - 1)).squeeze()
+        # (callables are written for arrays of points)
+        rndVal = np.asarray(callable(np.asarray([2 * pseudoRand - 1]))).squeeze()
 
         if np.any(np.isnan(rndVal)) or np.any(np.isinf(rndVal)):
             assert False, 'Cannot handle functions that evaluate to Inf or NaN'
-- 
2.43.0


From eda574451fd02a6e40d13c8cda34116b7916bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 087/114] fix: a composition passes arrays to the callable,
 also for a single point

---
 funpy/fun.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 2c1a487..424e81c 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -326,13 +326,16 @@ def dot(input1, input2):
 
 
 def get_composer(f, op, g=None):
-    """ Returns a lambda generating the composition of the two functions """
+    """ Returns a lambda generating the composition of the two functions
+
+        (op is written for arrays of values, also if there is a single point)
+    """
     if g is None:
         """ Compute op(f) """
-        return lambda x: op(f(x))
+        return lambda x: op(np.atleast_1d(f(x)))
     else:
         """ Compute op(f, g) """
-        return lambda x: op(f(x), g(x))
+        return lambda x: op(np.atleast_1d(f(x)), np.atleast_1d(g(x)))
 
 
 def compose(f, op, g=None, ftype=None):
-- 
2.43.0


From 96f1439ab2a07390c3cd8cc906e8852ebc1bf39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 088/114] fix: repr of a function does not change the print
 options of other threads

---
 funpy/fun.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 424e81c..9694b74 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -117,8 +117,11 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return '%sfun column (%d pieces) on %s at %s points.' % (self.type, self.m, self.domain, len(self))
 
     def __repr__(self):
-        with np.printoptions(precision=16):
-            return f"{self.__class__.__name__}(op={repr(self.onefun.values)}, domain={repr(self.domain)}, type={repr(self.type)})"
+        # (the print options are shared by all threads)
+        def text(v):
+            return np.array_repr(v, precision=16) if isinstance(v, np.ndarray) else repr(v)
+
+        return f"{self.__class__.__name__}(op={text(self.onefun.values)}, domain={text(self.domain)}, type={repr(self.type)})"
 
     def __getattr__(self, name):
         if not hasattr(self.onefun, name):
-- 
2.43.0


From a3faa6c7ca2f6395937007b07a7dc72b7a8de6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 089/114] fix: the Hilbert space functional imports its
 quadrature weights from this package

---
 funpy/support/Functional.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index a556242..12c522d 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -5,6 +5,7 @@ import numpy as np
 
 from ..fun import Fun
 from ..cheb import polyval
+from ..cheb import quadwts
 from ..cheb import computeDerCoeffs
 
 
@@ -28,7 +29,6 @@ class Functional:
 
         # transform the value of f(x) to coefficient representation
         if self.basis == 'coeff':
-            from cheb.chebpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_cheb
 
@@ -49,7 +49,6 @@ class Functional:
                     f = (np.diff(f) / rescaleFactor).prolong(max(1, f.n-1))
 
         elif self.basis == 'trigspec':
-            from trig.trigpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_trig
 
-- 
2.43.0


From 0aceb7dba9f315752f47805275f582806c54a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 090/114] fix: a functional applied to a coefficient vector
 keeps the columns apart

---
 funpy/support/Functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index 12c522d..a6d9554 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -118,7 +118,7 @@ class Functional:
 
     def __call__(self, u):
         """ Implements (f, u) """
-        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape)
+        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape, order='F')
         iproduct = np.dot(self.rhs[0], coeffs.flatten(order='F'))
 
         for order in range(self.dorder):
-- 
2.43.0


From e8597d4b88adcf059282f9c069fd77247d3155c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 091/114] fix: searches deflate known solutions with a
 functional that acts on coefficient vectors

---
 funpy/newton/NewtonSystem.py | 6 ++++--
 funpy/newton/deflation.py    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index 116f77a..cbd52c6 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -81,11 +81,13 @@ class NewtonSystem:
 
         if self.known_solutions:
             self.res = self.colloc.project_vector(self.source.rhs.values.flatten(order='F'), cts=True)
-            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions)
+            self.eta, self.deta = deflation_linearization(
+                self.u.u, known_solutions=self.known_solutions,
+                basis='trigspec' if self.ftype == 'trig' else 'coeff')
 
         # Create the matrix and its precond
         proj   = self.colloc.proj
-        matrix = FrechetDeflated(M, eta=self.eta, b=self.res, deta=self.deta)
+        matrix = FrechetDeflated(M, eta=self.eta, b=self.res, deta=self.deta, dtype=self.dtype)
 
         # Use a rough estimate of the linear operator as the preconditioner
         if precond:
diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index f666fe3..b27594b 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -3,7 +3,8 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 
-from ..fun import h1norm, Functional
+from ..fun import h1norm
+from ..support import Functional
 
 
 def deflation(u, known_solutions=[], shift=1.0, power=2.0):
-- 
2.43.0


From b3ffb633d086735331e590586568f56fd472d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 092/114] fix: lucp leaves its argument alone

---
 funpy/linalg/lucp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..a310343 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -21,6 +21,9 @@ from scipy.sparse import tril, triu, eye
 def lucp(A, tol=1e-8, full=False, format='csr'):
     n, m = A.shape
 
+    # the elimination below works in place: leave the caller's matrix alone
+    A = A.copy()
+
     if np.any(np.iscomplex(A)):
         dtype = A.dtype
     elif issubclass(A.dtype.type, numbers.Integral):
-- 
2.43.0


From 1920f8dcce3facb25746d625eb519301360bff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 093/114] fix: null vectors undo the permutations of the
 factorisation

---
 funpy/linalg/nullspace.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..937afbb 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -39,10 +39,10 @@ def null_vector(A, right=True, left=False, normalize=True):
         phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False)
 
         # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        phi[Q] = phi.copy()  # Q.dot(phi)
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
@@ -53,14 +53,14 @@ def null_vector(A, right=True, left=False, normalize=True):
 
         # Solve for the left null-vector
         # Create the correct right hand side for the backwards solve
-        L_dual = L.getH()
+        L_dual = L.getH().tocsr()
         psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False)
 
         # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        psi[P] = psi.copy()
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From 17ea42d9b633e829917a2da26fb40e33bfc55a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 094/114] fix: the pseudo-inverse uses the Cholesky factors in
 the right order

---
 funpy/linalg/qr_chol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..dafc093 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -193,8 +193,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +222,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From b27aa99a095b902d648b53dd70c6eeb1e1d8ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 095/114] fix: the pseudo rank does not depend on the scale of
 the matrix

---
 funpy/linalg/qr_chol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index dafc093..e06907e 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -145,7 +145,7 @@ class QRCholesky:
 
     def pseudo_rank(self, R):
         r = np.abs(R.diagonal())
-        s = (r[1:] / r[0]) <= r[0] * self.eps
+        s = r[1:] <= r[0] * self.eps
         if np.all(~s):
             return r.size
         return np.argmax(s) + 1
-- 
2.43.0


From 80aaca3e0c24da6b7b54cac8535ff1f6973b559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 096/114] fix: the exact linear solver can use the QR
 decomposition

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index e91da12..635990b 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, rank=A.shape[0], *args, **kwargs)
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
-- 
2.43.0


From 788944f89b48a60eed2d4b1fefef4a7f76f4f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 097/114] fix: a failed update leaves a bordered solver as it
 was

---
 funpy/linalg/bem_solve.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index 5bde1e2..8d9b52f 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -76,24 +76,22 @@ class BEM:
         self.eta   = self.d - np.dot(self.b, self.beta)
 
     def update_row(self, b, d):
-        self.b = b
-        self.d = d
-
-        # Update the pre-processing steps
+        # Update the pre-processing steps (nothing changes when the inner solver fails)
         if not self.is_singular:
-            self.gamma = self.solver.solve_adj(self.b)   # b is in N[A] --> not in R[A^T]
-            self.delta = self.d - np.dot(self.gamma, self.c)
-            self.eta   = self.d - np.dot(self.b, self.beta)
+            gamma      = self.solver.solve_adj(b)        # b is in N[A] --> not in R[A^T]
+            delta, eta = d - np.dot(gamma, self.c), d - np.dot(b, self.beta)
+            self.gamma, self.delta, self.eta, self.b, self.d = gamma, delta, eta, b, d
+        else:
+            self.b, self.d = b, d
 
     def update_col(self, c, d):
-        self.c = c
-        self.d = d
-
-        # Update the pre-processing steps
+        # Update the pre-processing steps (nothing changes when the inner solver fails)
         if not self.is_singular:
-            self.delta = self.d - np.dot(self.gamma, self.c)
-            self.beta  = self.solver.solve(self.c)       # c is in N[A^T] --> not in R[A]
-            self.eta   = self.d - np.dot(self.b, self.beta)
+            beta       = self.solver.solve(c)            # c is in N[A^T] --> not in R[A]
+            delta, eta = d - np.dot(self.gamma, c), d - np.dot(self.b, beta)
+            self.beta, self.delta, self.eta, self.c, self.d = beta, delta, eta, c, d
+        else:
+            self.c, self.d = c, d
 
     def nullspace(self):
         # BED approximation to y
-- 
2.43.0


From 6a6d378c3b45c17d9b2ae0bcefcb715de0ae0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 098/114] fix: solve_null solves for the same right hand side
 when the core is singular

---
 funpy/linalg/bem_solve.py | 4 ++--
 funpy/linalg/brd_solve.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index 8d9b52f..32580c9 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -191,12 +191,12 @@ class BEM:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_singular_adj(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((psi, 0))
+        return np.hstack((psi / np.dot(self.c, psi), 0))
 
     def solve_null(self):
         return self.solve_null_singular() if self.is_singular else self.solve_null_nonsing()
diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 863e903..05a743d 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -140,7 +140,7 @@ class BMatrix:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_nonsingular(self):
         # Prepare
-- 
2.43.0


From fe7283eccd8fe556618c81561d04baf0706c5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 099/114] fix: updating a wide bordered solver leaves the
 caller's lists alone

---
 funpy/linalg/bemw_solve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bemw_solve.py b/funpy/linalg/bemw_solve.py
index 1e3a13d..5c9e7c2 100644
--- a/funpy/linalg/bemw_solve.py
+++ b/funpy/linalg/bemw_solve.py
@@ -32,9 +32,10 @@ class BEMW:
 
         # Main storage
         self.solver = solver
-        self.bs = bs
-        self.cs = cs
-        self.ds = ds
+        # (lists of our own, since updates replace their elements)
+        self.bs = list(bs)
+        self.cs = list(cs)
+        self.ds = list(ds)
 
         # Storage for data computed by this class
         self.storage = None
-- 
2.43.0


From b72ab218f1f83fd50bf7a0ab931356910cfebae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 100/114] fix: a failed update leaves a wide bordered solver as
 it was

---
 funpy/linalg/bemw_solve.py | 59 ++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/funpy/linalg/bemw_solve.py b/funpy/linalg/bemw_solve.py
index 5c9e7c2..ce9f3f1 100644
--- a/funpy/linalg/bemw_solve.py
+++ b/funpy/linalg/bemw_solve.py
@@ -72,40 +72,49 @@ class BEMW:
         c = self.cs
         d = self.ds
 
-        # Create factor storage
-        self.storage = np.empty((m, m + 2 * n + 1), dtype=float)
-
-        for k in range(m):
-            # vk: v1 has length n
-            vk = self.solve_detail(k, c[k])
-            r = m - k - 1
-            self.storage[r, 2 + r + n:] = vk
-            self.storage[k, 0] = d[k] - np.dot(b[k], vk)
-
-            # wk: w1 has length n + m - 1
-            wk = self.solve_adj_detail(k, b[k])
-            self.storage[k, 2:n + k + 2] = wk
-            self.storage[k, 1] = d[k] - np.dot(c[k], wk)
+        old = self.storage
+        try:
+            # Create factor storage
+            self.storage = np.empty((m, m + 2 * n + 1), dtype=float)
+
+            for k in range(m):
+                # vk: v1 has length n
+                vk = self.solve_detail(k, c[k])
+                r = m - k - 1
+                self.storage[r, 2 + r + n:] = vk
+                self.storage[k, 0] = d[k] - np.dot(b[k], vk)
+
+                # wk: w1 has length n + m - 1
+                wk = self.solve_adj_detail(k, b[k])
+                self.storage[k, 2:n + k + 2] = wk
+                self.storage[k, 1] = d[k] - np.dot(c[k], wk)
+        except BaseException:
+            # half a preparation is of no use when the inner solver fails
+            self.storage = old
+            raise
 
     def update_row(self, j, b, d):
         assert j >= 0 and j < self.m, ''
 
-        self.bs[j] = b
-        self.ds[j] = d
-
-        # Update the pre-processing steps
-        # TODO: optimize!
-        if not self.is_singular: self.prepare()
+        self._update(self.bs, j, b, d)
 
     def update_col(self, j, c, d):
         assert j >= 0 and j < self.m, ''
 
-        self.cs[j] = c
-        self.ds[j] = d
+        self._update(self.cs, j, c, d)
 
-        # Update the pre-processing steps
-        # TODO: optimize!
-        if not self.is_singular: self.prepare()
+    def _update(self, border, j, vec, d):
+        # nothing changes when the inner solver fails
+        old = (border[j], self.ds[j], self.storage)
+        try:
+            border[j], self.ds[j] = vec, d
+
+            # Update the pre-processing steps
+            # TODO: optimize!
+            if not self.is_singular: self.prepare()
+        except BaseException:
+            border[j], self.ds[j], self.storage = old
+            raise
 
     """ Simple lookup functions of the values in storage """
     def δ(self, k):
-- 
2.43.0


From 4bd254404b4cbaa5db49da4f6e12eb310c00b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 101/114] fix: null vectors handed out are the caller's own

---
 funpy/linalg/brd_solve.py | 2 +-
 funpy/linalg/qr_solve.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 05a743d..8a06c7b 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -93,7 +93,7 @@ class BMatrix:
         if self.phi is None or self.psi is None:
             self.phi, self.psi = self._null()
 
-        return self.phi, self.psi
+        return self.phi.copy(), self.psi.copy()
 
     def part(self, b):
         b = self.Q.T.dot(b)
diff --git a/funpy/linalg/qr_solve.py b/funpy/linalg/qr_solve.py
index b83a1e1..a926d43 100644
--- a/funpy/linalg/qr_solve.py
+++ b/funpy/linalg/qr_solve.py
@@ -132,7 +132,7 @@ class QR:
         if self.phi is None or self.psi is None:
             self.phi, self.psi = self._null()
 
-        return self.phi, self.psi
+        return self.phi.copy(), self.psi.copy()
 
     def det_sign(self):
         """ Compute the sign of the determinant of matrix A """
-- 
2.43.0


From 9ff75fea902ef776f71c46d3fac7b00e087dd593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 102/114] fix: Newton-Gauss corrections are orthogonal to the
 tangent

---
 funpy/linalg/schur_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index a6a5b95..be1c550 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -99,7 +99,7 @@ class LinearSolverNGSchur:
         delta = self.solve_core(rhs)
 
         # Finally compute correction to u component
-        delta_a = sprod(self.tangent.u, delta) / self.schur_comp
+        delta_a = -sprod(self.tangent.u, delta) / self.schur_comp
         delta_u = delta - delta_a * self.W
 
         return self.to_state(delta_u, delta_a)
-- 
2.43.0


From 41e8ee397222d348b2321706d22d19a10e0a34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:54 +0000
Subject: [PATCH 103/114] fix: product of Fourier series of which one has an
 even length lost its highest frequency

---
 funpy/trig/ufuncs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 08423bc..c7ae0ca 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -191,8 +191,11 @@ def multiply(x1, x2, **kwargs):
         fn, fm = x1.shape
         gn, gm = x2.shape
 
+        # The highest frequencies are fn // 2 and gn // 2, also when the lengths are even
+        nout = 2 * (fn // 2 + gn // 2) + 1
+
         # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        ncoeffs, nvals = prolong(x1.coeffs, nout, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -217,7 +220,7 @@ def multiply(x1, x2, **kwargs):
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, nout, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
-- 
2.43.0


From 0be3bff2d51aeb823cd1b3c980e21275e3814787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:54 +0000
Subject: [PATCH 104/114] fix: shift and convolution of Fourier series of even
 length treated the highest cosine as one exponential

---
 funpy/trig/operations.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index edc5c7e..63fbf77 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -7,6 +7,7 @@ from scipy.fft import ifft, fft
 
 from .trigtech import trigtech
 from .transform import vals2coeffs, coeffs2vals
+from .trig_simplify import prolong
 
 
 def circshift(f, a):
@@ -28,12 +29,14 @@ def circshift(f, a):
     #
     # So a shift by a only requires multiplying the k-th coefficients by (exp(-1i pi a))^k.
     #
-    if np.remainder(n, 2):
-        even_odd_fix = np.exp(-1j*np.pi*a)**(np.arange(-(n-1)/2, n/2, 1))
-    else:
-        even_odd_fix = np.exp(-1j*np.pi*a)**(np.arange(-n/2, n/2, 1))
-
-    ncoeffs = f.coeffs * np.expand_dims(even_odd_fix, axis=1)
+    # The shifted cosine of highest frequency (even length) needs both of its modes
+    coeffs = f.coeffs
+    if np.remainder(n, 2) == 0:
+        n = n + 1
+        coeffs, _ = prolong(coeffs, n, f.isReal)
+
+    even_odd_fix = np.exp(-1j*np.pi*a)**(np.arange(-(n-1)/2, n/2, 1))
+    ncoeffs = coeffs * np.expand_dims(even_odd_fix, axis=1)
     nvalues = coeffs2vals(ncoeffs)
 
     if not np.isreal(a):
@@ -55,16 +58,15 @@ def circconv(f, g, domain):
         return NotImplemented
 
     # Get the sizes of the trigtech objects
-    nf = f.n
-    ng = g.n
+    # (odd, so that both modes of the cosine of highest frequency are there)
+    n = max(f.n, g.n) | 1
 
     # Make sure the trigtech objects have the same underlying size
     # (copies: the operands themselves must keep their length)
-    if nf > ng:
-        g = deepcopy(g).prolong(nf)
-    elif nf < ng:
-        f = deepcopy(f).prolong(ng)
-    n = f.n
+    if g.n < n:
+        g = deepcopy(g).prolong(n)
+    if f.n < n:
+        f = deepcopy(f).prolong(n)
 
     # Convolution is just multiplication of the Fourier coefficients.
     # Shift g horizontally to -1
-- 
2.43.0


From 442287f802ca0c4441ec3d4ec904677238cea50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 105/114] fix: derivative of a Fourier series of even length

---
 funpy/trig/trigtech.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 6753e21..790cdea 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -583,13 +583,14 @@ def diff(f, n=1, axis=0):
     """ Compute the n-th derivative of the trigtech f """
     assert axis == 0, 'Axis other than zero not implemented yet!'
 
-    m = f.n
     c = f.coeffs  # TODO call simplify!
 
-    if m & 1:
-        waveNumber = np.expand_dims(np.arange(-(m-1)/2, m/2), axis=1)
-    else:
-        waveNumber = np.expand_dims(np.arange(-m/2, m/2), axis=1)
+    # The derivative of the cosine of highest frequency (even length) needs both of its modes
+    if not f.n & 1:
+        c, _ = prolong(c, f.n + 1, f.isReal)
+
+    m = c.shape[0]
+    waveNumber = np.expand_dims(np.arange(-(m-1)/2, m/2), axis=1)
 
     # derivative in Fourier space
     c = c * (1j * np.pi * waveNumber)**n
-- 
2.43.0


From 781601cc5071bb53e6f78501ac30a6132a54db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 106/114] fix: antiderivative of a Fourier series of even
 length dropped its highest frequency

---
 funpy/trig/trigtech.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 790cdea..56884a7 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -622,7 +622,7 @@ def cumsum(f, m=1, **kwargs):
 
         sum_{k = -(n-1)/2}^{(n-1)/2} c_k exp(i*pi*kx)
 
-    its integral is represented with a trigtech of length n given by
+    its integral is represented with a trigtech of length n (n + 1 when n is even) given by
 
         sum_{k = -(n-1)/2}^{(n-1)/2} b_k exp(i*pi*kx)
 
@@ -668,19 +668,9 @@ def cumsum(f, m=1, **kwargs):
     nonzero = sumIndices != 0
     integrationFactor[nonzero] = (-1j/sumIndices[nonzero]/np.pi)**m
     c = c * integrationFactor
-    # If this is an odd order cumsum and there an even number of
-    # coefficients then zero out the coefficients corresponding to
-    # sin(N/2x) term, since this will be zero on the Fourier grid
-    if m & 1 and isEven:
-        c[0, :] = 0
-        c[n, :] = 0
-
     # fix the constant term
     c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
-    if isEven:
-        c = c[:-1]
-
     # call simplify
     # grab lval
 
-- 
2.43.0


From b95e5ee5678cdcb9829c85d565b733a6e455baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 107/114] fix: chebtech.compose kept sample values of the
 chopped function

---
 funpy/cheb/refine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 3148302..bf28cec 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -127,6 +127,8 @@ class Refine(RefineBase):
 class RefineCompose1(RefineBase):
     def __init__(self, f, op, *args, **kwargs):
         super().__init__(op, *args, **kwargs)
+        # the values of f are kept between refinements, so that they may not be those of f chopped
+        self.minSamples = max(self.minSamples, f.n)
         self.f = f
         self._call = self.__nested
 
@@ -173,6 +175,8 @@ class RefineCompose1(RefineBase):
 class RefineCompose2(RefineBase):
     def __init__(self, f, op, g, *args, **kwargs):
         super().__init__(op, *args, **kwargs)
+        # the values of f and g are kept between refinements, so that they may not be those of f or g chopped
+        self.minSamples = max(self.minSamples, f.n, g.n)
         self.f = f
         self.g = g
         self._call = self.__nested
-- 
2.43.0


From f63c1d1034ec2c6d76f0028bc0cb684f2156b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 108/114] fix: multiplying the coefficients by a C-ordered
 array left a function that cannot be used

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 150fbfd..ed420a7 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -196,10 +196,10 @@ def multiply(x1, x2, **kwargs):
         # multiply the coefficients
         if out is not None:
             # Do this because the various multiply reorders may flip x1 and x2
-            out[0].coeffs = x1.coeffs * x2
+            out[0].coeffs = np.asfortranarray(x1.coeffs * x2)
             c = out[0].coeffs
         else:
-            c = x1.coeffs * x2
+            c = np.asfortranarray(x1.coeffs * x2)
 
         ishappy = x1.ishappy
         eps = x1.eps
-- 
2.43.0


From b65cb26d836659fe9b1cadf331213b978a376c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 109/114] fix: plot_values(norm_type='Wkp') raised a TypeError

---
 funpy/vectorspaces/cont_state.py    | 4 ++--
 funpy/vectorspaces/tp_cont_state.py | 4 ++--
 funpy/vectorspaces/tp_state.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index ab0bc1e..d4e956c 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from ..fun import Fun, h1norm, norm, norm2, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, norm2, sturm_norm, sturm_norm_alt
 
 from .namespace import Namespace
 from .base_state import BaseState
@@ -118,7 +118,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_cont_state.py b/funpy/vectorspaces/tp_cont_state.py
index 2d4c167..fb5105f 100644
--- a/funpy/vectorspaces/tp_cont_state.py
+++ b/funpy/vectorspaces/tp_cont_state.py
@@ -4,7 +4,7 @@
 import numpy as np
 from copy import deepcopy
 
-from ..fun import Fun, h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, sturm_norm, sturm_norm_alt
 from .base_state import BaseState
 from .parameter import Parameter
 
@@ -113,7 +113,7 @@ class TwoParContState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_state.py b/funpy/vectorspaces/tp_state.py
index 74bef34..171de81 100644
--- a/funpy/vectorspaces/tp_state.py
+++ b/funpy/vectorspaces/tp_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 
 from ..fun import Fun
-from ..fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import wkpnorm, norm, sturm_norm, sturm_norm_alt
 
 from .base_state import BaseState
 from .parameter import Parameter
@@ -129,7 +129,7 @@ class TwoParameterState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
-- 
2.43.0


From 36c91d88b48dc97d37f86e001f0c16a538a4c40a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:20:33 +0000
Subject: [PATCH 110/114] fix: a one column Fourier function updated with *=
 could not be multiplied by one with several columns

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index c7ae0ca..afa611c 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -230,7 +230,7 @@ def multiply(x1, x2, **kwargs):
         ishappy = x1.ishappy and x2.ishappy
 
         # Call simplify
-        v, c = simplify_coeffs(c, x1.isReal)
+        v, c = simplify_coeffs(c, np.ones(c.shape[1], dtype=bool) & x1.isReal & x2.isReal)
 
         # TODO
         if pos:
-- 
2.43.0


From c1c825f049cd96389f197c46194b855a3f0bffed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:20:33 +0000
Subject: [PATCH 111/114] fix: one column + several columns raised a
 ValueError, several + one did not

---
 funpy/cheb/ufuncs.pyx | 4 ++++
 funpy/trig/ufuncs.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index ed420a7..dab9f1c 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -77,6 +77,10 @@ def add(x1, x2, **kwargs):
         return trigtech(op=lambda x: result.feval(x), eps=eps)
 
     elif isinstance(x2, type(x1)):  # other is expected to be a chebfun object now
+        # A single column is added to every column of the other function
+        if out is None and x1.m == 1 and x2.m > 1:
+            return add(x2, x1)
+
         nf = x1.n
         no = x2.n
 
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index afa611c..0cb7b3f 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -81,6 +81,10 @@ def add(x1, x2, **kwargs):
         return trigtech(op=lambda x: result.feval(x))
 
     elif isinstance(x2, type(x1)):  # other is expected to be a chebfun object now
+        # A single column is added to every column of the other function
+        if out is None and x1.m == 1 and x2.m > 1:
+            return add(x2, x1)
+
         nf = x1.n
         no = x2.n
 
-- 
2.43.0


From 2adf3c54f3a9cb2205f3595f7e2b2b8eefad51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:12 +0000
Subject: [PATCH 112/114] fix: the norm of a residual was taken at the
 resolution of the last residual function

---
 funpy/colloc/chebOp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 9329adf..9effbfd 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -400,6 +400,7 @@ class ChebOp:
                    simplify=False, type=self.ftype)
 
     def residual(self, u, p=2):
+        self.linSys.setDisc(self.n_disc)
         self.linSys.update_partial(u)
         res = Fun(coeffs=self.linSys.rhs.values, domain=u.domain, type=self.ftype)
         residual = res.norm(p=p)
-- 
2.43.0


From ff56a9f509cfe7486f5501718b157e68bf205562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:07 +0000
Subject: [PATCH 113/114] fix: chebtech.chebpts(n) returned the points of its
 own length

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 30ab0d2..e2f4b0b 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -265,7 +265,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def chebpts(self, n=None):
         if n is None: n = self.n
-        return chebpts_type2_compute(self.n)
+        return chebpts_type2_compute(n)
 
     def get_values(self):
         return polyval(self.coeffs)
-- 
2.43.0


From 860be0d53bc3394af35613c1c2b8243679f24b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:27 +0000
Subject: [PATCH 114/114] fix: evaluation at a list of points returned the
 values at other points

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 9694b74..41f5f07 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -130,7 +130,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
     def __call__(self, x):
         """ x in [a, b] -> [-1, 1] """
-        z = self.mapping.bwd(x)
+        z = self.mapping.bwd(np.asarray(x))
         assert np.min(z) >= -1.0 and np.max(z) <= 1.0, 'Mapping must return an interval [-1, 1] instead of [%.12g, %.12g]!' % (np.min(z), np.max(z))
         return self.onefun.feval(z)
 
-- 
2.43.0

