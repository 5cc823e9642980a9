From 9bc6a6ab19ecbd6030c2090c91a2438f1d2c5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/33] fix: Jacobi-Gauss-Lobatto weights for nonzero alpha,
 beta

The two edge weights differ unless alpha == beta, and the formula used for the
interior weights was only valid for alpha == beta == 0.
---
 modepy/quadrature/jacobi_gauss.py | 57 ++++++++++++-------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..96be38f 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -332,7 +332,7 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         from math import gamma
 
-        from modepy.modes import binom, scaled_jacobi
+        from modepy.modes import binom
 
         # Formula numbers refer to https://doi.org/10.1023/A:1016689830453
         if N + 1 < 2:
@@ -347,43 +347,28 @@ class JacobiGaussLobattoQuadrature(Quadrature):
         # FIXME: Recurrences might be better than just typing up the formulas.
 
         # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
-        int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
-        int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
-            / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
-        )
+        def edge_weight(alpha: float, beta: float) -> float:
+            return (
+                2**(alpha + beta + 1)
+                * binom(n + alpha + 1, n)
+                / binom(n + beta + 1, n)
+                / binom(n + alpha + beta + 2, n)
+                * gamma(alpha + 2)
+                * gamma(beta + 1)
+                / gamma(alpha + beta + 3)
+            )
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
-        weights[1:-1] = int_weights
+        weights[0] = edge_weight(alpha, beta)
+        weights[-1] = edge_weight(beta, alpha)
+
+        if N > 1:
+            # The interior nodes are those of the Gauss rule for the weight
+            # function (1-x)^{alpha+1} (1+x)^{beta+1}, so that
+            # f(x) = (1-x^2) g(x) determines the interior weights.
+            int_quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
+                    backend=backend, force_dim_axis=True)
+            weights[1:-1] = int_quad.weights / (1 - nodes[1:-1]**2)
 
         if force_dim_axis:
             nodes = nodes.reshape(1, -1)
-- 
2.43.0


From 9cdaafb02c1e489e6f7e952d579874d8c49e3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 02/33] fix: respect force_dim_axis in single-node
 jacobi_gauss_lobatto_nodes

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 96be38f..f93ad9b 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From d1518b3a3296320835fc1cecf64b84caa19b7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 03/33] fix: Monomial.hypercube_integral ignored the factor of
 the monomial

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..92a8b41 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, 1.0 * self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From 827c1f3ae1e1b41e7d941a726881c189c358e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 04/33] fix: ZeroDimensionalQuadrature.exact_to must be
 modepy's own infinity

A floating point infinity is not recognized by isinf() and cannot be compared
with the exact_to of a zero-dimensional TensorProductQuadrature.
---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..2aeb6a1 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From b5040e9121bd2cfba0c0215e34513365670528ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 05/33] fix: quadgk over semi-infinite intervals given in
 descending order

Whether the interval extends to plus or minus infinity is decided by the sign of
the infinite endpoint, not by whether it comes first or last.
---
 modepy/quadrature/kronrod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..c64581d 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,12 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                s0, si = (s2, s1) if inf1 else (s1, s2)
+                if si < 0:
+                    g, sm = _transform_semi_inf_neg(f, s0, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s0, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From 72670373afe479914325ef7a3a717b41cc2ceb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 06/33] fix: WitherdenVincentQuadrature instances shared the
 arrays of the rule table

---
 modepy/quadrature/witherden_vincent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..a9d2810 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -64,5 +64,6 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        # NOTE: the table is shared between all instances
+        super().__init__(rule["points"].copy(), rule["weights"].copy(),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From 730941aaf6e1d63dc179fce3fe59e7fab43702e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 07/33] fix: spectral_diag_nodal_mass_matrix returned the
 weights array of its argument

---
 modepy/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..f658188 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -477,7 +477,7 @@ def spectral_diag_nodal_mass_matrix(
     if not all(quad.dim == 1 for quad in quadrature.quadratures):
         raise ValueError("constituent quadratures of TP quadrature must be 1D")
 
-    return quadrature.weights
+    return quadrature.weights.copy()
 
 
 # {{{ deprecated remove in 2026-ish
-- 
2.43.0


From 658a874a9562724183be34532e287e8f29735321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/33] fix: linearly_combine for bases of size other than the
 number of functions

The number of linear combinations passed in need not match the number of
functions that they combine.
---
 modepy/quadrature/construction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..034ff1a 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -129,10 +129,11 @@ def linearly_combine(
 
     basis: list[NodalFunction] = []
     n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
+    nbasis = max((len(f.functions) for f in lcfunctions), default=0)
+    matrix = np.zeros((n, nbasis), dtype=np.complex128)
     for i, f in enumerate(lcfunctions):
         ncommon = min(len(basis), len(f.functions))
-        if basis[:ncommon]  != f.functions[:ncommon]:
+        if basis[:ncommon] != list(f.functions[:ncommon]):
             warn("Not all functions passed to linearly_combine used the "
                  "same basis. Returning an un-flattened linear combination instead.",
                  stacklevel=2)
-- 
2.43.0


From e42e1ebd2e9cec681fb72efffe1eb76e2581b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 09/33] fix: quadrature construction with nodes of shape
 (nnodes,)

Also compare the number of integrands with the number of nodes (not of
dimensions) when warning about underdetermined systems.
---
 modepy/quadrature/construction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 034ff1a..c0acf1f 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -322,7 +322,7 @@ def find_weights_undetermined_coefficients(
     if len(reference_integrals) != len(integrands):
         raise ValueError(
                 "number of integrands must match number of reference integrals")
-    if len(reference_integrals) < len(nodes):
+    if len(reference_integrals) < nodes.shape[-1]:
         from warnings import warn
         warn("Underdetermined quadrature system", stacklevel=2)
 
@@ -400,7 +400,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From 38a04d2178cc7cb450220edbf3d13cce79d24b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/33] fix: two-point Clenshaw-Curtis rule used integers and
 the opposite node order

---
 modepy/quadrature/clenshaw_curtis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/clenshaw_curtis.py b/modepy/quadrature/clenshaw_curtis.py
index ea1f373..9ca2252 100644
--- a/modepy/quadrature/clenshaw_curtis.py
+++ b/modepy/quadrature/clenshaw_curtis.py
@@ -43,7 +43,7 @@ def _make_clenshaw_curtis_nodes_and_weights(n: int) -> tuple[ArrayF, ArrayF]:
         raise ValueError(f"Clenshaw-Curtis order must be at least 1: n = {n}")
 
     if n == 1:
-        return np.array([-1, 1]), np.array([1, 1])
+        return np.array([1.0, -1.0]), np.array([1.0, 1.0])
 
     N = np.arange(1, n, 2)  # noqa: N806
     r = len(N)
-- 
2.43.0


From b792f0dbde4e5e5367d1202824ded81ed3af8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 11/33] fix: vandermonde cast all functions to the dtype of the
 first

This truncated values, e.g. if the first function returned integers.
---
 modepy/matrices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index f658188..28190c5 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -114,11 +114,11 @@ def vandermonde(
              DeprecationWarning, stacklevel=2)
         return multi_vandermonde(functions, nodes)
 
-    result = np.empty((nnodes, nfunctions), f_first_values.dtype)
-    result[:, 0] = f_first_values
+    f_values = [f_first_values, *(f(nodes) for f in f_iter)]
 
-    for j, f in enumerate(f_iter):
-        result[:, j + 1] = f(nodes)
+    result = np.empty((nnodes, nfunctions), np.result_type(*f_values))
+    for j, f_values_j in enumerate(f_values):
+        result[:, j] = f_values_j
 
     return result
 
-- 
2.43.0


From 15a79f2b44616a5a75f82d2ef0bd6a9c4b6013c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 12/33] fix: copying and pickling of QN and TensorProductShape

Neither could be reconstructed. Zero-dimensional QN also had no order.
---
 modepy/shapes.py | 4 ++++
 modepy/spaces.py | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..721ea97 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -271,12 +271,17 @@ class QN(TensorProductSpace):
 
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
+        self._order: int = order
+
+    @override
+    def __getnewargs__(self):
+        return (self.spatial_dim, self.order)
 
     @property
     @override
     def order(self):
         """Maximum degree of the polynomials in the space."""
-        return self.bases[0].order
+        return self._order
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From 163eeca91592d3ff75527f5210a9aba645a4cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 13/33] fix: tensor products of a single QN or Hypercube raised
 TypeError

---
 modepy/shapes.py | 3 ++-
 modepy/spaces.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6888a09..621f176 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -351,7 +351,8 @@ class TensorProductShape(Shape):
     def __new__(cls, bases: tuple[Shape, ...]) -> TensorProductShape: ...
 
     def __new__(cls, bases: tuple[Shape, ...]) -> Shape:
-        if len(bases) == 1:
+        # NOTE: returning a TensorProductShape would call its __init__ once more
+        if len(bases) == 1 and not isinstance(bases[0], TensorProductShape):
             return bases[0]
         else:
             return Shape.__new__(cls)
diff --git a/modepy/spaces.py b/modepy/spaces.py
index 721ea97..763df35 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -129,7 +129,8 @@ class TensorProductSpace(FunctionSpace):
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> TensorProductSpace: ...
 
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> FunctionSpace:
-        if len(bases) == 1:
+        # NOTE: returning a TensorProductSpace would call its __init__ once more
+        if len(bases) == 1 and not isinstance(bases[0], TensorProductSpace):
             return bases[0]
         else:
             return FunctionSpace.__new__(cls)
-- 
2.43.0


From bd1c9d65ca9ac479d0ddcfb2e77b295222be9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 14/33] fix: submesh_for_shape covers tensor products of shapes
 other than lines

For prisms, only cells whose triangle has the orientation of the reference
triangle were returned, leaving the others uncovered.
---
 modepy/shapes.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 621f176..7c75d6c 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -688,22 +688,28 @@ def submesh_for_hypercube(
         shape: TensorProductShape,
         node_tuples: Sequence[tuple[int, ...]]
         ) -> Sequence[tuple[int, ...]]:
-    from modepy.spaces import space_for_shape
-    space = space_for_shape(shape, order=1)
-
-    from modepy.nodes import node_tuples_for_space
-    vertex_node_tuples = node_tuples_for_space(space)
-
-    from pytools import add_tuples
+    from itertools import product
+
+    # The elements of the submesh are products of those of the base shapes, with
+    # the vertex order of the shape, i.e. the first base varying fastest.
+    base_elements: list[list[list[tuple[int, ...]]]] = []
+    start = 0
+    for base in shape.bases:
+        base_tuples = list(dict.fromkeys(
+            nt[start:start + base.dim] for nt in node_tuples))
+        base_elements.append([
+            [base_tuples[i] for i in el]
+            for el in submesh_for_shape(base, base_tuples)])
+        start += base.dim
 
     result: list[tuple[int, ...]] = []
     node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
 
-    for current in node_tuples:
+    for element in product(*reversed(base_elements)):
         with contextlib.suppress(KeyError):
             result.append(tuple(
-                    node_dict[add_tuples(current, offset)]
-                    for offset in vertex_node_tuples
+                    node_dict[sum(reversed(vertex), ())]
+                    for vertex in product(*element)
                     ))
 
     return result
-- 
2.43.0


From abd895d817f67ebdb45887806348d836c29836cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 15/33] fix: the zero-dimensional basis function was two, not
 one

The basis claims to be orthonormal with weight 1.
---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From cb7079c12c88b9ba7c0a9bcf78be61f87fd9fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 16/33] fix: quadrature_for_space raised AttributeError for
 unsupported shapes

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 2aeb6a1..15b8d96 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -338,7 +338,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From 89fe057ad8414c319b69114ec9cd374add1a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 17/33] fix: quadrature_for_space failed for tensor products of
 mixed orders

---
 modepy/quadrature/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 15b8d96..1427d9c 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -346,12 +346,16 @@ def _quadrature_for_tp(
     if space.spatial_dim == 0:
         quad: Quadrature = ZeroDimensionalQuadrature()
     else:
-        quad = TensorProductQuadrature([
+        quads = [
             quadrature_for_space(sp, shp)
             for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
+            ]
+        # NOTE: the exactness of each factor matters, not that of the product,
+        # which is limited by the factor of lowest order.
+        assert all(q.exact_to >= getattr(s, "order", 0)
+                   for q, s in zip(quads, space.bases, strict=True))
+        quad = TensorProductQuadrature(quads)
 
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
     return quad
 
 # }}}
-- 
2.43.0


From 86e245bc3004a2eea43b93223551f36e3e7d8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 18/33] fix: linearly_combine of nested, un-flattened linear
 combinations

---
 modepy/quadrature/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index c0acf1f..9df8b46 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -74,7 +74,8 @@ def _identity_integrand(points: ArrayF) -> ArrayF:
     return points
 
 
-@dataclass(frozen=True)
+# NOTE: compared by identity: coefficient arrays don't have a truth value
+@dataclass(frozen=True, eq=False)
 class LinearCombinationIntegrand:
     """
     .. note::
-- 
2.43.0


From fb121fffa5d8317a93c94fd3e90659c7908ee088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 19/33] fix: scaled_jacobi overflowed to infinity for orders of
 about 100

---
 modepy/modes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..fd4448c 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -276,10 +276,9 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
         scaling = (
             2**(alpha + beta + 1)
             / (2*n + alpha + beta + 1)
-            * gamma(n + alpha + 1)
-            * gamma(n + beta + 1)
-            / gamma(n + alpha + beta + 1)
-            / factorial(n)
+            # NOTE: the quotients do not overflow before the gammas do
+            * (gamma(n + alpha + 1) / gamma(n + alpha + beta + 1))
+            * (gamma(n + beta + 1) / factorial(n))
         )
 
     return sqrt(scaling) * jacobi(alpha, beta, n, x)
-- 
2.43.0


From 8b8234ab46f5ab13f373434cc2c319750869414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:15 +0000
Subject: [PATCH 20/33] fix: multi_vandermonde cast all functions and
 components to the dtype of the first

---
 modepy/matrices.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 28190c5..0921572 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -150,20 +150,14 @@ def multi_vandermonde(
     if not nfunctions:
         raise ValueError("empty functions is not allowed")
 
-    result = None
-    for j, f in enumerate(functions):
-        f_values = f(nodes)
+    f_values = [f(nodes) for f in functions]
 
-        if result is None:
-            from pytools import single_valued
-            dtype = single_valued(fi.dtype for fi in f_values)
-            result = tuple(np.empty((nnodes, nfunctions), dtype)
-                    for i in range(len(f_values)))
-
-        for i, f_values_i in enumerate(f_values):
-            result[i][:, j] = f_values_i
-
-    assert result is not None
+    result = tuple(
+            np.empty((nnodes, nfunctions), np.result_type(*component_values))
+            for component_values in zip(*f_values, strict=True))
+    for j, f_values_j in enumerate(f_values):
+        for i, f_values_ji in enumerate(f_values_j):
+            result[i][:, j] = f_values_ji
 
     return result
 
-- 
2.43.0


From b241e278e2300e9f7b1f5ec1c796aabc0c7595fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 21/33] fix: simplex bases of a dimension other than that of
 the shape were returned silently

---
 modepy/modes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index fd4448c..8e34564 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -944,6 +944,8 @@ class _SimplexMonomialBasis(SimplexBasis):
 def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
@@ -955,6 +957,8 @@ def _basis_for_pn(space: PN, shape: Simplex):
 def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexONB(space.spatial_dim, space.order)
 
@@ -963,6 +967,8 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
 def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
-- 
2.43.0


From 81bd544ebb8882b51c731bdf49ec57b5e35d7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 22/33] fix: derivatives(axis) of tensor product and monomial
 bases: negative and invalid axes

Axes counted from the end, or outside of the space, silently gave the
functions themselves instead of their derivatives. Gradients and the
orthonormal simplex bases take axis as an ordinary tuple index.
---
 modepy/modes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 8e34564..9d4b2f7 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -537,6 +537,9 @@ def diff_monomial(
     dim = len(order)
     assert dim == rst.shape[0]
 
+    # negative axes count from the end, IndexError if out of range
+    diff_axis = range(dim)[diff_axis]
+
     from pytools import product
     return np.asarray(product(
         _diff_monomial_1d(
@@ -1091,6 +1094,9 @@ class TensorProductBasis(Basis):
                 for mid in self._mode_index_tuples)
 
     def derivatives(self, axis: int) -> tuple[BasisFunction, ...]:
+        # negative axes count from the end, IndexError if out of range
+        axis = range(self._dim)[axis]
+
         bases = [b.functions for b in self._bases]
         return tuple(
                 _TensorProductBasisFunction(
-- 
2.43.0


From fb358f9378432d3cffed80d2f843a180ef113360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 23/33] fix: plot_element_values: triangulate the resampled
 nodes

The submesh was the one of the original order, whose indices mean other
nodes (or none) once the values are resampled.
---
 modepy/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 92a8b41..9817545 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -273,7 +273,6 @@ def plot_element_values(
 
     shape = mp.Simplex(dims)
     space = mp.space_for_shape(shape, n)
-    submesh = mp.submesh_for_shape(shape, mp.node_tuples_for_space(space))
 
     if resample_n is not None:
         basis = mp.orthonormal_basis_for_space(space, shape)
@@ -282,7 +281,9 @@ def plot_element_values(
         mat = mp.resampling_matrix(basis.functions, fine_nodes, nodes)
         values = mat @ values
         nodes = fine_nodes
-        n = resample_n
+        space = mp.space_for_shape(shape, resample_n)
+
+    submesh = mp.submesh_for_shape(shape, mp.node_tuples_for_space(space))
 
     if dims == 1:
         import matplotlib.pyplot as pt
-- 
2.43.0


From ce9fcc951a5d21d0dfc2d9f506f0af554e417e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:35 +0000
Subject: [PATCH 24/33] fix: estimate_lebesgue_constant: pass the triangulation
 to tricontourf

matplotlib does not accept the keyword triangles for a contour set, and the
elements of the submesh of a square are not triangles.
---
 modepy/tools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 9817545..97df57a 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -384,17 +384,21 @@ def estimate_lebesgue_constant(
         plt.show()
     elif shape.dim == 2:
         print(f"Lebesgue constant: {lebesgue_constant}")
-        triangles = shp.submesh_for_shape(shape, equi_node_tuples)
+        # the elements of the submesh of a square are not triangles
+        triangles = (
+            shp.submesh_for_shape(shape, equi_node_tuples)
+            if isinstance(shape, shp.Simplex) else None)
 
         import matplotlib.pyplot as plt
+        from matplotlib.tri import Triangulation
 
         fig = plt.figure()
         ax = fig.gca()
         ax.grid()
         ax.plot(nodes[0], nodes[1], "ko")
         p = ax.tricontourf(
-                equi_nodes[0], equi_nodes[1], lebesgue_worst / lebesgue_constant,
-                triangles=triangles,
+                Triangulation(equi_nodes[0], equi_nodes[1], triangles),
+                lebesgue_worst / lebesgue_constant,
                 levels=16)
         fig.colorbar(p)
         ax.set_aspect("equal")
-- 
2.43.0


From 89c1ce59fdee60786bc56c4736dce6eb70517e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:41 +0000
Subject: [PATCH 25/33] fix: pkdo_2d took a third coordinate of its points as a
 tolerance

---
 modepy/modes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9d4b2f7..0240df4 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -316,7 +316,8 @@ def pkdo_2d(order: tuple[int, int], rs: ArrayF) -> ArrayF:
     * |dubiner-ref|
     """
 
-    a, b = _rstoab(*rs)
+    r, s = rs
+    a, b = _rstoab(r, s)
     i, j = order
 
     h1 = jacobi(0, 0, i, a)
-- 
2.43.0


From bb20b09ca1c0015fa437b0a376d9d8d693842519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:41 +0000
Subject: [PATCH 26/33] fix: face maps accepted points of another dimension
 (einsum broadcasting)

---
 modepy/shapes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 7c75d6c..bac0e63 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -446,6 +446,10 @@ def _simplex_face_to_vol_map(
     origin = face_vertices[:, 0].reshape(-1, 1)
     face_basis = face_vertices[:, 1:] - origin
 
+    # NOTE: einsum would broadcast a mismatched axis of length one
+    if len(p) != face_basis.shape[1]:
+        raise ValueError(f"expected {face_basis.shape[1]}-dimensional points on the face")
+
     return origin + cast("ArrayF", np.einsum("ij,jk->ik", face_basis, (1 + p) / 2))
 
 
@@ -536,6 +540,10 @@ def _hypercube_face_to_vol_map(
     else:
         raise NotImplementedError(f"_hypercube_face_to_vol_map in {dim} dimensions")
 
+    # NOTE: einsum would broadcast a mismatched axis of length one
+    if len(p) != face_basis.shape[1]:
+        raise ValueError(f"expected {face_basis.shape[1]}-dimensional points on the face")
+
     return origin + cast("ArrayF", np.einsum("ij,jk->ik", face_basis, (1 + p) / 2))
 
 
-- 
2.43.0


From 43fc9229c95f020c136244b706cb2aadd18d15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:51 +0000
Subject: [PATCH 27/33] fix: submesh_for_shape answered for node tuples of
 another dimension

---
 modepy/shapes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index bac0e63..ffecff8 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -609,6 +609,8 @@ def submesh_for_simplex(
     from pytools import add_tuples, single_valued
 
     dims = single_valued(len(nt) for nt in node_tuples)
+    if dims != shape.dim:
+        raise ValueError(f"expected {shape.dim}-dimensional node tuples")
 
     node_dict = {
             ituple: idx
@@ -698,6 +700,9 @@ def submesh_for_hypercube(
         ) -> Sequence[tuple[int, ...]]:
     from itertools import product
 
+    if any(len(nt) != shape.dim for nt in node_tuples):
+        raise ValueError(f"expected {shape.dim}-dimensional node tuples")
+
     # The elements of the submesh are products of those of the base shapes, with
     # the vertex order of the shape, i.e. the first base varying fastest.
     base_elements: list[list[list[tuple[int, ...]]]] = []
-- 
2.43.0


From 207479a6abfa865656eefea7bdd12ca32f8c5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 28/33] fix: dimension of large product spaces overflowed
 64-bit integers

---
 modepy/spaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index 763df35..519966b 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -48,12 +48,12 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import math
 from abc import ABC, abstractmethod
 from functools import singledispatch
 from numbers import Number
 from typing import Literal, TypeVar, overload
 
-import numpy as np
 from typing_extensions import override
 
 from modepy.shapes import Shape, Simplex, TensorProductShape
@@ -164,7 +164,7 @@ class TensorProductSpace(FunctionSpace):
     @property
     @override
     def space_dim(self) -> int:
-        return int(np.prod([space.space_dim for space in self.bases]))
+        return math.prod(space.space_dim for space in self.bases)
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From 72ed8e6e06c06f0001138d3b078f4c828308eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 29/33] fix: simplex integrals of monomials of large exponents
 overflowed

---
 modepy/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 97df57a..309cc3c 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -111,8 +111,9 @@ class Monomial:
         """
         n = len(self.exponents)
         m = sum(self.exponents)
-        return (self.factor * 2**n
-                * math.prod(math.factorial(alpha) for alpha in self.exponents)
+        # integers first: the factorials may exceed the range of a float
+        return self.factor * (
+                2**n * math.prod(math.factorial(alpha) for alpha in self.exponents)
                 / math.factorial(n + m))
 
     def hypercube_integral(self) -> float:
-- 
2.43.0


From 680bca5cbc9a6e5a4d3d45b574c8fc455a25cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:58 +0000
Subject: [PATCH 30/33] fix: quadgk accepts breakpoints of any numpy scalar
 type

Infinite intervals were only recognized if all breakpoints were Python
ints or floats, so that e.g. quadgk(f, np.int64(0), np.inf) failed with a
complaint about the integrand, differences of unsigned integers wrapped
around to integrate over another interval, and breakpoints in half or single
precision limited the precision of the bisection.
---
 modepy/quadrature/kronrod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index c64581d..514928f 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -573,7 +573,9 @@ def quadgk(
     if len(pts) < 2:
         raise ValueError("quadgk requires at least two breakpoints")
 
-    s = list(pts)
+    # Breakpoints may come as any kind of (numpy) scalar: integers that wrap or
+    # short floats are not what they should be transformed and bisected in.
+    s = [complex(p) if np.iscomplexobj(p) else float(p) for p in pts]
     return _do_quadgk(f, s, order, abstol, reltol, maxevals)
 
 
-- 
2.43.0


From 126042083ca3ee2dfebb5ccdc0627fff7c5b9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:57 +0000
Subject: [PATCH 31/33] fix: gradients of tensor products of mixed bases failed
 at integer points

---
 modepy/modes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 0240df4..df7f55e 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -722,7 +722,8 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    # NOTE: not in-place: the type depends on all the factors
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From 35dc1db46dcb4ff82cd4a5b71fcaf638c4073bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:06 +0000
Subject: [PATCH 32/33] fix: orthogonalize_basis failed without scipy for all
 but the smallest bases

---
 modepy/quadrature/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 9df8b46..7cdaf98 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -198,7 +198,8 @@ def orthogonalize_basis(
         from scipy.linalg import solve_triangular
     except ImportError:
         # *shrug* I guess? The triangular version is also O(n**3).
-        l_inv = la.inv(l_factor)
+        # NOTE: not exactly triangular, due to pivoting and rounding
+        l_inv = np.tril(la.inv(l_factor))
     else:
         l_inv = solve_triangular(l_factor, np.eye(n), lower=True)
 
-- 
2.43.0


From 78b4b9cc569bd64f3565a1e08c49a4f5d63558ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:28 +0000
Subject: [PATCH 33/33] fix: Lebesgue constants of order 0 were NaN

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 309cc3c..21a0f3c 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -316,7 +316,7 @@ def plot_element_values(
 def _evaluate_lebesgue_function(
         n: int, nodes: ArrayF, shape: Shape
     ) -> tuple[ArrayF, Sequence[tuple[int, ...]], ArrayF]:
-    huge_n = (30 if shape.dim == 2 else 10) * n
+    huge_n = (30 if shape.dim == 2 else 10) * max(n, 1)
 
     import modepy as mp
 
-- 
2.43.0

