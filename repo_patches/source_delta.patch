From fd445a314a532cb87267c7d34c64587cbb9a76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 01/12] fix: take rows or columns of batched low-rank matrices
 along the right axis

---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From 68d0aead34d2427e2050ae88d6e31d98259db17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 02/12] fix: align columns of low-rank matrices only if
 identical across the whole batch

---
 matrix/ops/algorithms/align.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..7d54fbf 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -25,8 +25,12 @@ def align(a, b):
     a0 = a[(0,) * len(B.shape_batch(a)) + (slice(None), slice(None))]
     b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
 
+    a_dense, b_dense = B.dense(a), B.dense(b)
+
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        # Columns must be identical in every element of the batch.
+        diff = B.subtract(a_dense[..., index_a], b_dense[..., index_b])
+        return B.max(B.mean(diff**2, axis=-1)) < 1e-10
 
     # We need the norms later on.
     a_norms = B.sum(B.multiply(a0, a0), axis=0)
-- 
2.43.0


From 1f7e84f8407d3c1957e15f02e405e4e7aa8f3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 03/12] fix: make the dense form of tiled blocks of matrices
 numeric

---
 matrix/ops/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1cd0174 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From 38ba41ae0e39334b66e808d53c79729008faa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 04/12] fix: Kronecker product of two zero matrices recursed
 without end

---
 matrix/ops/kron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From 6c5dc040b0ea994ba6698d3ba0fc5c1968add67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 05/12] fix: diagonal of Kronecker products of non-square
 factors

---
 matrix/ops/diag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..ea74b66 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -65,5 +65,12 @@ def diag(a: Woodbury):
 
 @B.dispatch
 def diag(a: Kronecker):
+    if any(len(set(B.shape_matrix(x))) > 1 for x in (a.left, a.right)):
+        # The diagonal is only the product of the diagonals for square factors.
+        warn_upmodule(
+            f"Getting the diagonal of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+        return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
     return B.kron(B.diag(left), B.diag(right), -1)
-- 
2.43.0


From a513038cccd18aec721767d6e6ca3cdee27f6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 06/12] fix: sample batched Woodbury matrices with independent
 noise for every batch element

---
 matrix/ops/sample.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/matrix/ops/sample.py b/matrix/ops/sample.py
index 42c9ed9..e24717b 100644
--- a/matrix/ops/sample.py
+++ b/matrix/ops/sample.py
@@ -17,20 +17,24 @@ def sample(state: B.RandomState, a, num: B.Int = 1):
     Returns:
         tensor: Samples as rank 2 column vectors.
     """
+    return _sample(state, a, B.shape_batch(a), num)
+
+
+B.sample = sample
+
+
+def _sample(state, a, batch, num):
     chol = B.cholesky(a)
     state, noise = B.randn(
         state,
         B.dtype_float(a),
-        *B.shape_batch(a),
+        *batch,
         B.shape(chol, -1),
         num,
     )
     return state, B.matmul(chol, noise)
 
 
-B.sample = sample
-
-
 @B.dispatch
 def sample(a, num: B.Int = 1):
     state, res = sample(B.global_random_state(a), a, num=num)
@@ -40,6 +44,8 @@ def sample(a, num: B.Int = 1):
 
 @B.dispatch
 def sample(state: B.RandomState, a: Woodbury, num: B.Int = 1):
-    state, sample_diag = B.sample(state, a.diag, num=num)
-    state, sample_lr = B.sample(state, a.lr, num=num)
+    # Every element of the batch needs its own noise in both parts.
+    batch = B.shape_batch(a)
+    state, sample_diag = _sample(state, a.diag, batch, num)
+    state, sample_lr = _sample(state, a.lr, batch, num)
     return state, sample_diag + sample_lr
-- 
2.43.0


From 2df3be381544e3a5d55f57047f605c0516535243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 07/12] fix: block-diagonal matrix of a single batched array

---
 matrix/ops/block_diag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..8f14e29 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -25,6 +25,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     """
     elements = (element,) + elements
 
+    if len(elements) == 1:
+        # There is just one block. Return it.
+        return elements[0]
+
     # Align the batch dimensions to allow concatenation.
     elements = align_batch(*elements)
 
-- 
2.43.0


From c82e049af73011ff9f05f44f729afc3ca39047ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 08/12] fix: do not keep values computed inside a trace on
 matrices that outlive it

---
 matrix/lowrank.py        |  5 +++--
 matrix/ops/cholesky.py   | 14 +++++++-------
 matrix/ops/dense.py      | 16 +++++++++-------
 matrix/ops/isabstract.py |  6 ++++++
 matrix/ops/pd_schur.py   |  3 ++-
 matrix/ops/schur.py      |  3 ++-
 matrix/util.py           | 18 ++++++++++++++++++
 7 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/matrix/lowrank.py b/matrix/lowrank.py
index 30fdb6d..75b11a7 100644
--- a/matrix/lowrank.py
+++ b/matrix/lowrank.py
@@ -3,7 +3,7 @@ from lab.shape import Shape
 
 from .matrix import AbstractMatrix, repr_format
 from .shape import assert_matrix
-from .util import dtype_str, indent
+from .util import cache, dtype_str, indent
 
 __all__ = ["LowRank"]
 
@@ -97,7 +97,8 @@ class LowRank(AbstractMatrix):
         """Middle factor."""
         if self._middle is None:
             if self._middle_default is None:
-                self._middle_default = B.fill_diag(B.one(self.left), self.rank)
+                middle = B.fill_diag(B.one(self.left), self.rank)
+                return cache(self, "_middle_default", middle)
             return self._middle_default
         else:
             return self._middle
diff --git a/matrix/ops/cholesky.py b/matrix/ops/cholesky.py
index dcc63eb..24ab9f8 100644
--- a/matrix/ops/cholesky.py
+++ b/matrix/ops/cholesky.py
@@ -8,7 +8,7 @@ from ..lowrank import LowRank
 from ..matrix import Dense
 from ..shape import assert_square
 from ..triangular import LowerTriangular
-from ..util import ToDenseWarning
+from ..util import ToDenseWarning, cache
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -28,7 +28,7 @@ def cholesky(a: Zero):
 def cholesky(a: Dense):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = LowerTriangular(B.cholesky(a.mat))
+        return cache(a, "cholesky", LowerTriangular(B.cholesky(a.mat)))
     return a.cholesky
 
 
@@ -36,7 +36,7 @@ def cholesky(a: Dense):
 def cholesky(a: Diagonal):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = Diagonal(B.sqrt(a.diag))
+        return cache(a, "cholesky", Diagonal(B.sqrt(a.diag)))
     return a.cholesky
 
 
@@ -45,7 +45,7 @@ def cholesky(a: Constant):
     _assert_square_cholesky(a)
     if a.cholesky is None:
         chol_const = B.divide(B.sqrt(a.const), B.sqrt(a.cols))
-        a.cholesky = Constant(chol_const, a.rows, a.cols)
+        return cache(a, "cholesky", Constant(chol_const, a.rows, a.cols))
     return a.cholesky
 
 
@@ -53,7 +53,7 @@ def cholesky(a: Constant):
 def cholesky(a: LowRank):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = B.matmul(a.left, B.cholesky(a.middle))
+        return cache(a, "cholesky", B.matmul(a.left, B.cholesky(a.middle)))
     return a.cholesky
 
 
@@ -64,12 +64,12 @@ def cholesky(a: Woodbury):
             f"Converting {a} to dense to compute its Cholesky decomposition.",
             category=ToDenseWarning,
         )
-        a.cholesky = LowerTriangular(B.cholesky(B.dense(a)))
+        return cache(a, "cholesky", LowerTriangular(B.cholesky(B.dense(a))))
     return a.cholesky
 
 
 @B.dispatch
 def cholesky(a: Kronecker):
     if a.cholesky is None:
-        a.cholesky = Kronecker(B.cholesky(a.left), B.cholesky(a.right))
+        return cache(a, "cholesky", Kronecker(B.cholesky(a.left), B.cholesky(a.right)))
     return a.cholesky
diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index 1cd0174..49eeb31 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -11,6 +11,7 @@ from ..lowrank import LowRank
 from ..matrix import AbstractMatrix, Dense
 from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
+from ..util import cache
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -40,7 +41,7 @@ def dense(a: AbstractMatrix):
 @B.dispatch
 def dense(a: Zero):
     if a.dense is None:
-        a.dense = B.zeros(a.dtype, *B.shape(a))
+        return cache(a, "dense", B.zeros(a.dtype, *B.shape(a)))
     return a.dense
 
 
@@ -52,7 +53,7 @@ def dense(a: Union[Dense, LowerTriangular, UpperTriangular]):
 @B.dispatch
 def dense(a: Diagonal):
     if a.dense is None:
-        a.dense = B.diag_construct(a.diag)
+        return cache(a, "dense", B.diag_construct(a.diag))
     return a.dense
 
 
@@ -60,21 +61,22 @@ def dense(a: Diagonal):
 def dense(a: Constant):
     if a.dense is None:
         const = B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True)
-        a.dense = const * B.ones(B.dtype(a.const), *batch_ones(a), *B.shape_matrix(a))
+        ones = B.ones(B.dtype(a.const), *batch_ones(a), *B.shape_matrix(a))
+        return cache(a, "dense", const * ones)
     return a.dense
 
 
 @B.dispatch
 def dense(a: LowRank):
     if a.dense is None:
-        a.dense = B.dense(B.mm(a.left, a.middle, a.right, tr_c=True))
+        return cache(a, "dense", B.dense(B.mm(a.left, a.middle, a.right, tr_c=True)))
     return a.dense
 
 
 @B.dispatch
 def dense(a: Woodbury):
     if a.dense is None:
-        a.dense = B.dense(a.diag) + B.dense(a.lr)
+        return cache(a, "dense", B.dense(a.diag) + B.dense(a.lr))
     return a.dense
 
 
@@ -82,7 +84,7 @@ def dense(a: Woodbury):
 def dense(a: Kronecker):
     if a.dense is None:
         left, right = align_batch(a.left, a.right)
-        a.dense = B.kron(B.dense(left), B.dense(right), -2, -1)
+        return cache(a, "dense", B.kron(B.dense(left), B.dense(right), -2, -1))
     return a.dense
 
 
@@ -119,5 +121,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
+        return cache(a, "dense", B.dense(B.concat(*repeated_blocks, axis=axis)))
     return a.dense
diff --git a/matrix/ops/isabstract.py b/matrix/ops/isabstract.py
index 08b5dd2..cdbdef8 100644
--- a/matrix/ops/isabstract.py
+++ b/matrix/ops/isabstract.py
@@ -7,6 +7,7 @@ from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -46,3 +47,8 @@ def isabstract(a: Woodbury):
 @B.dispatch
 def isabstract(a: Kronecker):
     return B.isabstract(a.left) or B.isabstract(a.right)
+
+
+@B.dispatch
+def isabstract(a: TiledBlocks):
+    return any([B.isabstract(block) for block in a.blocks])
diff --git a/matrix/ops/pd_schur.py b/matrix/ops/pd_schur.py
index bd336a5..a12f715 100644
--- a/matrix/ops/pd_schur.py
+++ b/matrix/ops/pd_schur.py
@@ -1,5 +1,6 @@
 import lab as B
 
+from ..util import cache
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -18,7 +19,7 @@ def pd_schur(a: Woodbury):
     """
     if a.schur is None:
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
-        a.schur = B.add(B.pd_inv(a.lr.middle), second)
+        return cache(a, "schur", B.add(B.pd_inv(a.lr.middle), second))
     return a.schur
 
 
diff --git a/matrix/ops/schur.py b/matrix/ops/schur.py
index 646038c..949a9f5 100644
--- a/matrix/ops/schur.py
+++ b/matrix/ops/schur.py
@@ -1,5 +1,6 @@
 import lab as B
 
+from ..util import cache
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -18,7 +19,7 @@ def schur(a: Woodbury):
     """
     if a.schur is None:
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
-        a.schur = B.add(B.inv(a.lr.middle), second)
+        return cache(a, "schur", B.add(B.inv(a.lr.middle), second))
     return a.schur
 
 
diff --git a/matrix/util.py b/matrix/util.py
index f801510..5c7a2b4 100644
--- a/matrix/util.py
+++ b/matrix/util.py
@@ -10,6 +10,24 @@ class ToDenseWarning(UserWarning):
     """Warnings that are generated when matrices are converted to dense."""
 
 
+def cache(a, name, value):
+    """Save the result of a computation as an attribute of a matrix. Abstract values,
+    e.g. values computed whilst tracing a function, are not saved, because they may not
+    be used once the trace has finished whereas the matrix may.
+
+    Args:
+        a (matrix): Matrix.
+        name (str): Name of the attribute.
+        value (object): Value to save.
+
+    Returns:
+        object: `value`.
+    """
+    if not B.isabstract(value):
+        setattr(a, name, value)
+    return value
+
+
 def indent(x, indentation="  "):
     """Indent a string.
 
-- 
2.43.0


From e12964fd2891b82a68018e8686791dabd91d6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 09/12] fix: do not let shape dimensions turn means and
 constant products into object arrays

---
 matrix/constant.py | 10 +++++-----
 matrix/ops/mean.py |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/matrix/constant.py b/matrix/constant.py
index 4e27567..ccd604f 100644
--- a/matrix/constant.py
+++ b/matrix/constant.py
@@ -1,5 +1,5 @@
 import lab as B
-from lab.shape import Shape
+from lab.shape import Shape, unwrap_dimension
 
 from .matrix import AbstractMatrix, repr_format
 from .util import dtype_str, indent
@@ -32,8 +32,8 @@ class Zero(AbstractMatrix):
             raise ValueError("Must specify the number of rows and columns.")
         self._dtype = dtype
         self.batch = shape[:-2]
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         self.dense = None
 
     @property
@@ -76,8 +76,8 @@ class Constant(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         if shape[:-2] == ():
             # No batch shape was specified. Infer it from `const`.
             self.batch = B.shape(const)
diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..5872eab 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -15,5 +16,5 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
     if axis is None:
         n = reduce(mul, B.shape(a), 1)
     else:
-        n = B.shape(a, resolve_axis(a, axis))
+        n = unwrap_dimension(B.shape(a, resolve_axis(a, axis)))
     return B.sum(a, axis=axis) / n
-- 
2.43.0


From 29ef765e96808a339397a479ce5e2e5efb0c9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 10/12] fix: record and replay control flow regardless of what
 earlier computations saved

---
 matrix/ops/cholesky.py |  8 ++++----
 matrix/ops/dense.py    | 10 +++++-----
 matrix/ops/pd_schur.py |  4 ++--
 matrix/ops/schur.py    |  4 ++--
 matrix/util.py         | 16 ++++++++++++++++
 5 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/matrix/ops/cholesky.py b/matrix/ops/cholesky.py
index 24ab9f8..85dbfa9 100644
--- a/matrix/ops/cholesky.py
+++ b/matrix/ops/cholesky.py
@@ -8,7 +8,7 @@ from ..lowrank import LowRank
 from ..matrix import Dense
 from ..shape import assert_square
 from ..triangular import LowerTriangular
-from ..util import ToDenseWarning, cache
+from ..util import ToDenseWarning, cache, needs_computing
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -52,14 +52,14 @@ def cholesky(a: Constant):
 @B.dispatch
 def cholesky(a: LowRank):
     _assert_square_cholesky(a)
-    if a.cholesky is None:
+    if needs_computing(a.cholesky):
         return cache(a, "cholesky", B.matmul(a.left, B.cholesky(a.middle)))
     return a.cholesky
 
 
 @B.dispatch
 def cholesky(a: Woodbury):
-    if a.cholesky is None:
+    if needs_computing(a.cholesky):
         warn_upmodule(
             f"Converting {a} to dense to compute its Cholesky decomposition.",
             category=ToDenseWarning,
@@ -70,6 +70,6 @@ def cholesky(a: Woodbury):
 
 @B.dispatch
 def cholesky(a: Kronecker):
-    if a.cholesky is None:
+    if needs_computing(a.cholesky):
         return cache(a, "cholesky", Kronecker(B.cholesky(a.left), B.cholesky(a.right)))
     return a.cholesky
diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index 49eeb31..b165d04 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -11,7 +11,7 @@ from ..lowrank import LowRank
 from ..matrix import AbstractMatrix, Dense
 from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
-from ..util import cache
+from ..util import cache, needs_computing
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -68,21 +68,21 @@ def dense(a: Constant):
 
 @B.dispatch
 def dense(a: LowRank):
-    if a.dense is None:
+    if needs_computing(a.dense):
         return cache(a, "dense", B.dense(B.mm(a.left, a.middle, a.right, tr_c=True)))
     return a.dense
 
 
 @B.dispatch
 def dense(a: Woodbury):
-    if a.dense is None:
+    if needs_computing(a.dense):
         return cache(a, "dense", B.dense(a.diag) + B.dense(a.lr))
     return a.dense
 
 
 @B.dispatch
 def dense(a: Kronecker):
-    if a.dense is None:
+    if needs_computing(a.dense):
         left, right = align_batch(a.left, a.right)
         return cache(a, "dense", B.kron(B.dense(left), B.dense(right), -2, -1))
     return a.dense
@@ -90,7 +90,7 @@ def dense(a: Kronecker):
 
 @B.dispatch
 def dense(a: TiledBlocks):
-    if a.dense is None:
+    if needs_computing(a.dense):
         # Take the axis to be negative, which will work when batch dimensions are
         # added during broadcasting.
         axis = resolve_axis(a, a.axis, negative=True)
diff --git a/matrix/ops/pd_schur.py b/matrix/ops/pd_schur.py
index a12f715..a20378b 100644
--- a/matrix/ops/pd_schur.py
+++ b/matrix/ops/pd_schur.py
@@ -1,6 +1,6 @@
 import lab as B
 
-from ..util import cache
+from ..util import cache, needs_computing
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -17,7 +17,7 @@ def pd_schur(a: Woodbury):
     Returns:
         matrix: Schur complement.
     """
-    if a.schur is None:
+    if needs_computing(a.schur):
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
         return cache(a, "schur", B.add(B.pd_inv(a.lr.middle), second))
     return a.schur
diff --git a/matrix/ops/schur.py b/matrix/ops/schur.py
index 949a9f5..e1800e1 100644
--- a/matrix/ops/schur.py
+++ b/matrix/ops/schur.py
@@ -1,6 +1,6 @@
 import lab as B
 
-from ..util import cache
+from ..util import cache, needs_computing
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -17,7 +17,7 @@ def schur(a: Woodbury):
     Returns:
         matrix: Schur complement.
     """
-    if a.schur is None:
+    if needs_computing(a.schur):
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
         return cache(a, "schur", B.add(B.inv(a.lr.middle), second))
     return a.schur
diff --git a/matrix/util.py b/matrix/util.py
index 5c7a2b4..d02bf8c 100644
--- a/matrix/util.py
+++ b/matrix/util.py
@@ -28,6 +28,22 @@ def cache(a, name, value):
     return value
 
 
+def needs_computing(value):
+    """Check if the result of a computation that may involve control flow needs to be
+    computed. If control flow is being recorded or replayed, the computation is always
+    run, because otherwise the outcomes that it records or replays would depend on what
+    happened to be saved.
+
+    Args:
+        value (object): Saved value, or `None` if nothing is saved.
+
+    Returns:
+        bool: `True` if the result needs to be computed and `False` if `value` can be
+            used.
+    """
+    return value is None or B.control_flow.caching or B.control_flow.use_cache
+
+
 def indent(x, indentation="  "):
     """Indent a string.
 
-- 
2.43.0


From 09ed2ed701893a5aca2accbbeb67e8b9cac6216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 11/12] fix: keep the results that were saved first

---
 matrix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matrix/util.py b/matrix/util.py
index d02bf8c..b55f307 100644
--- a/matrix/util.py
+++ b/matrix/util.py
@@ -13,7 +13,8 @@ class ToDenseWarning(UserWarning):
 def cache(a, name, value):
     """Save the result of a computation as an attribute of a matrix. Abstract values,
     e.g. values computed whilst tracing a function, are not saved, because they may not
-    be used once the trace has finished whereas the matrix may.
+    be used once the trace has finished whereas the matrix may. A result that was already
+    saved is kept.
 
     Args:
         a (matrix): Matrix.
@@ -23,7 +24,7 @@ def cache(a, name, value):
     Returns:
         object: `value`.
     """
-    if not B.isabstract(value):
+    if getattr(a, name) is None and not B.isabstract(value):
         setattr(a, name, value)
     return value
 
-- 
2.43.0


From f2effe593073783e555bd112b3f8b317bcb4a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 12/12] fix: log-determinants of low-rank, constant, and zero
 matrices and inverses of low-rank matrices

---
 matrix/ops/logdet.py | 16 ++++++++++++++++
 matrix/ops/pd_inv.py | 12 ++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/matrix/ops/logdet.py b/matrix/ops/logdet.py
index bcc183a..496591a 100644
--- a/matrix/ops/logdet.py
+++ b/matrix/ops/logdet.py
@@ -1,12 +1,16 @@
 from typing import Union
 
 import lab as B
+from wbml.warning import warn_upmodule
 
+from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
+from ..lowrank import LowRank
 from ..matrix import AbstractMatrix
 from ..shape import assert_square
 from ..triangular import LowerTriangular, UpperTriangular
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -22,6 +26,18 @@ def logdet(a: Union[Diagonal, LowerTriangular, UpperTriangular]):
     return B.sum(B.log(B.diag(a)), axis=-1)
 
 
+@B.dispatch
+def logdet(a: Union[Constant, LowRank, Zero]):
+    # The Cholesky decomposition of these matrices is not triangular, so it cannot be
+    # used to compute the log-determinant.
+    assert_square(a, "Can only compute the log-determinant of square matrices.")
+    warn_upmodule(
+        f"Converting {a} to dense to compute its log-determinant.",
+        category=ToDenseWarning,
+    )
+    return B.logdet(B.dense(a))
+
+
 @B.dispatch
 def logdet(a: Woodbury):
     return B.logdet(a.diag) + B.logdet(a.lr.middle) + B.logdet(B.pd_schur(a))
diff --git a/matrix/ops/pd_inv.py b/matrix/ops/pd_inv.py
index a6a7760..b5b755c 100644
--- a/matrix/ops/pd_inv.py
+++ b/matrix/ops/pd_inv.py
@@ -2,11 +2,13 @@ from typing import Union
 
 import lab as B
 from plum import convert
+from wbml.warning import warn_upmodule
 
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import AbstractMatrix
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -34,6 +36,16 @@ def pd_inv(a: Diagonal):
     return B.inv(a)
 
 
+@B.dispatch
+def pd_inv(a: LowRank):
+    # The Cholesky decomposition of low-rank matrices is not triangular, so it cannot be
+    # used in `cholesky_solve`.
+    warn_upmodule(
+        f"Converting {a} to dense to compute its inverse.", category=ToDenseWarning
+    )
+    return B.pd_inv(B.dense(a))
+
+
 @B.dispatch
 def pd_inv(a: Woodbury):
     diag_inv = B.inv(a.diag)
-- 
2.43.0

