From 07bddfcc1eafb1197fef91238906cae64aec5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 01/19] fix: sum of chains with mixed dtypes must not drop
 imaginary parts

max() of dtypes picks float64 for complex64 + float64.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..cc9686d 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1851,7 +1851,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
-- 
2.43.0


From ef66cdb8958c6dc7dfa19075ea16b843f93052e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 02/19] fix: block_diag must promote dtypes of all summands

local_sum() of real and complex terms raised a casting error.
---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 38a7e1c9265e5551cbd8badfbbc96a6612abb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 03/19] fix: leg2vleg must not claim that site pos + 1 is
 right-canonical

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index cc9686d..4f5cf49 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 7f13da62041a4f0bf6f54b8a5a073a25b2029c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 04/19] fix: MPArray.sum with None on the first site and with
 negative legs

None on the first site raised a TypeError and negative leg numbers
summed over virtual legs.
---
 mpnum/mparray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 4f5cf49..ac1b5a8 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -432,13 +432,13 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if len(axes) == 0 or not (axes[0] is None
+                                      or hasattr(axes[0], '__iter__')):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
         axes = (tuple(range(1, ndims + 1)) if ax is None
-                else tuple(a + 1 for a in ax)
+                else tuple(a + 1 if a >= 0 else a - 1 for a in ax)
                 for ax, ndims in zip(axes, self.ndims))
         out = type(self)(lt.sum(ax) if ax else lt
                          for ax, lt in zip(axes, self.lt))
-- 
2.43.0


From d41bf76441a223205610f514d7443203a5042957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 05/19] fix: axis_iter and diag must not select virtual legs
 for negative axes

---
 mpnum/mparray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index ac1b5a8..5317001 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -301,7 +301,7 @@ class MPArray(object):
         if not isinstance(axes, collections.Iterable):
             axes = it.repeat(axes, len(self))
 
-        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1))
+        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1 if i >= 0 else i - 1))
                                   for i, lten in zip(axes, self.lt)))
         return (MPArray(ltens) for ltens in ltens_iter)
 
@@ -1325,6 +1325,8 @@ def diag(mpa, axis=0):
         pass
     ndims = mpa.ndims[0]
     assert all(p == ndims for p in mpa.ndims)
+    if axis < 0:
+        axis += ndims
 
     slices = ((slice(None),) * (axis + 1) + (i,) for i in range(dim))
     mpas = [MPArray(ltens[s] for ltens in mpa.lt) for s in slices]
-- 
2.43.0


From ae1e2c44c1206cfcecb4793af02f57c0c6b834c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 06/19] fix: random_local_ham must use the given randstate

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From 0d8151626353f590b6f20fc0461ae653b24a7a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 07/19] fix: MPArray.load must not use the removed
 Dataset.value of h5py

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 5317001..a53b712 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From 3e7f46b1c04b84db864d000a96450ba40280adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 08/19] fix: lfun_from must not truncate other_weights to
 integers

---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..1e7bd84 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 6b6b8ee0a5cd11d1bd59f53ffddadbe6923a6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 09/19] fix: concat of POVMs must not exhaust an iterator of
 weights

---
 mpnum/povm/localpovm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/povm/localpovm.py b/mpnum/povm/localpovm.py
index 462eeb1..f24fc76 100644
--- a/mpnum/povm/localpovm.py
+++ b/mpnum/povm/localpovm.py
@@ -170,6 +170,7 @@ def concat(povms, weights, info_complete=False):
     :returns: POVM
 
     """
+    weights = tuple(weights)
     assert_almost_equal(sum(weights), 1.0)
     elements = sum(([weight * elem for elem in povm]
                     for povm, weight in zip(povms, weights)), [])
-- 
2.43.0


From 69f49390ed95a051b72c4c48cd061ada2a5a7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 10/19] fix: canonical form after updating a local tensor by
 negative index

---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..b28d28c 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -136,6 +136,8 @@ class LocalTensors(object):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
+            if index < 0:
+                index += len(self)
             current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
-- 
2.43.0


From 8f5b5d3a18f2dd5112e3c4a1048188d308b0a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 11/19] fix: slice updates must replace all local tensors or
 none

Too few tensors, and a single canonicalization value for a slice, caused
partial updates.
---
 mpnum/mpstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index b28d28c..cf52ca6 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -124,12 +124,14 @@ class LocalTensors(object):
             start, stop, step = indices
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
+            assert len(tens) == len(range(*indices))
             assert self[start].shape[0] == tens[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            if isinstance(canonicalization, str) \
+                    or not isinstance(canonicalization, collections.Sequence):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From d10e37f1b4003a62bd672b75478b1e18811463ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 12/19] fix: canonical form after updates inside the opposite
 canonical part

A left-canonical tensor set inside the right-canonical part is not
right-canonical (and vice versa). The outermost tensors are never counted
as canonical (copies of such chains failed).
---
 mpnum/mpstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index cf52ca6..d8124b6 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -92,8 +92,12 @@ class LocalTensors(object):
         # remain the same (inequality case; second argument).
         if canonicalization == 'left' and self._lcanonical - index >= 0:
             self._lcanonical = max(index + 1, self._lcanonical)
+            self._rcanonical = max(index + 1, self._rcanonical)
+            self._lcanonical = min(self._lcanonical, len(self._ltens) - 1)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
             self._rcanonical = min(index, self._rcanonical)
+            self._lcanonical = min(index, self._lcanonical)
+            self._rcanonical = max(self._rcanonical, 1)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 4b5756288ae7f6361a3861871a5d7199bafe06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 13/19] fix: scaled tensor must not be reported as
 right-canonical

---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index a53b712..7fd4406 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -372,7 +372,8 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            return type(self)(LocalTensors(
+                ltens_new, cform=(lcanon, max(lcanon + 1, rcanon))))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
-- 
2.43.0


From d53f087c2419eb0082de7ae13cf536ade2b0e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 14/19] fix: split after the last site must return the entire
 chain

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 7fd4406..0b80742 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -569,7 +569,7 @@ class MPArray(object):
         """
         if pos < 0:
             return None, self
-        elif pos >= len(self):
+        elif pos >= len(self) - 1:
             return self, None
 
         mpa_t = self.vleg2leg(pos)
-- 
2.43.0


From 869d9ab92f7b0298ed0aea76df2fbaf6312b14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 15/19] fix: operations which return a new chain must not
 return the operand itself

In-place changes to the result changed the operand.
---
 mpnum/mparray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 0b80742..d05259c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -394,7 +394,7 @@ class MPArray(object):
         return -1 * self
 
     def __pos__(self):
-        return self
+        return self.copy()
 
     def __truediv__(self, divisor):
         if np.isscalar(divisor):
@@ -494,7 +494,7 @@ class MPArray(object):
                              .format(len(self), sites_per_group))
 
         if sites_per_group == 1:
-            return self
+            return self.copy()
         ltens = [_ltens_to_array(self._lt[i:i + sites_per_group])
                  for i in range(0, len(self), sites_per_group)]
         return MPArray(ltens)
@@ -568,9 +568,9 @@ class MPArray(object):
 
         """
         if pos < 0:
-            return None, self
+            return None, self.copy()
         elif pos >= len(self) - 1:
-            return self, None
+            return self.copy(), None
 
         mpa_t = self.vleg2leg(pos)
         lnorm, rnorm = mpa_t.canonical_form
-- 
2.43.0


From 5b625dd2361f7882321da6c03e0f608bf7b0c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:15 +0000
Subject: [PATCH 16/19] fix: update must reject site indices before the first
 site

Normalizing a negative index before accessing the site let indices below
-len wrap around a second time.
---
 mpnum/mpstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index d8124b6..88767cc 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -142,9 +142,9 @@ class LocalTensors(object):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
+            current = self._ltens[index]
             if index < 0:
                 index += len(self)
-            current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
             assert current.shape[-1] == tens.shape[-1]
-- 
2.43.0


From f69e7b2728b52f281270f3f451b6d60ddc7261f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:15 +0000
Subject: [PATCH 17/19] fix: eig_sum with a complex term after real ones

The in-place addition cannot cast the complex local operator into the real
array accumulated before and raised a TypeError.
---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 819e2a6cc41fe3e520f97df32d5f6233f79d7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:56 +0000
Subject: [PATCH 18/19] fix: sparse_cH with a dense last term

Square arrays are documented as valid terms but were accepted only for the
non-cyclic ones.
---
 mpnum/utils/physics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..1a98754 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -112,6 +112,8 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        cyc = mp.MPArray.from_array_global(cyc.reshape((ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From 5b12055c42bd775898b8c6b3125bf2fa941bf131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:56 +0000
Subject: [PATCH 19/19] fix: special.sumup with an iterator over weights

An iterator is documented for weights but its length was requested.
---
 mpnum/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/special.py b/mpnum/special.py
index 8ee5d3d..73b63d4 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -66,7 +66,7 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
     mpas = list(mpas)
     length = len(mpas[0])
     nr_summands = len(mpas)
-    weights = weights if weights is not None else np.ones(nr_summands)
+    weights = list(weights) if weights is not None else np.ones(nr_summands)
 
     assert all(len(mpa) == length for mpa in mpas)
     assert len(weights) == len(mpas)
-- 
2.43.0

