"""C30: mismatched or unsupported requests are rejected, never silently answered."""
import itertools
import math
import warnings

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel

S, P = mp.Simplex, mp.PN
TS, TH = mp.TensorProductSpace, mp.TensorProductShape


class OtherShape(mp.Shape):
    def __init__(self):
        super().__init__(2)

    nvertices = 3
    nfaces = 3


class OtherSpace(mp.FunctionSpace):
    spatial_dim = 2
    space_dim = 3
    order = 1


# kind: factor dimensions (a tuple: simplex if an int)
KINDS = [*range(5), (), (1, 1), (1, 1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 1, 1),
         (1, 2, 1), (1, 1, 2), (0, 1), (1, 0), "other", "object", "none", "class",
         "shape-or-space"]


def nested(kind):
    """Two ways to write a product of three factors."""
    return isinstance(kind, tuple) and len(kind) == 3


def mk_space(kind, n, nest):
    if isinstance(kind, int):
        return P(kind, n)
    if isinstance(kind, tuple):
        if nest:
            return TS((TS(tuple(P(d, n) for d in kind[:2])), P(kind[2], n)))
        if all(d == 1 for d in kind):
            return mp.QN(len(kind), n)
        return TS(tuple(P(d, n) for d in kind))
    return {"other": OtherSpace, "object": object, "none": lambda: None,
            "class": lambda: P, "shape-or-space": lambda: S(2)}[kind]()


def mk_shape(kind, nest):
    if isinstance(kind, int):
        return S(kind)
    if isinstance(kind, tuple):
        if nest:
            return TH((TH(tuple(S(d) for d in kind[:2])), S(kind[2])))
        if all(d == 1 for d in kind):
            return mp.Hypercube(len(kind))
        return TH(tuple(S(d) for d in kind))
    return {"other": OtherShape, "object": object, "none": lambda: None,
            "class": lambda: S, "shape-or-space": lambda: P(2, 2)}[kind]()


PAIR = ["basis", "onb", "monomial", "equispaced", "clustered", "quadrature"]
FN = {"basis": mp.basis_for_space, "onb": mp.orthonormal_basis_for_space,
      "monomial": mp.monomial_basis_for_space,
      "equispaced": mp.equispaced_nodes_for_space,
      "clustered": mp.edge_clustered_nodes_for_space,
      "quadrature": mp.quadrature_for_space}

# the published tables (WV: keys are odd orders)
TABLES = {"XG": {2: range(1, 51), 3: range(1, 16)}, "VR": {2: range(21), 3: range(11)},
          "WV": {2: range(1, 22, 2), 3: range(1, 12, 2)}, "JS": {3: range(20)}}
RULES = {
    "XG": lambda n, d: mp.XiaoGimbutasSimplexQuadrature(n, d),
    "VR": lambda n, d: mp.VioreanuRokhlinSimplexQuadrature(n, d),
    "WV": lambda n, d: mp.WitherdenVincentQuadrature(n, d),
    "JS": lambda n, d: mp.JaskowiecSukumarQuadrature(n, d),
}


def onb1(n):
    return mp.orthonormal_basis_for_space(P(1, n), S(1))


def onb(d, n):
    return mp.orthonormal_basis_for_space(P(d, n), S(d))


def pts(d, m):
    return ref.generic_points([d], m)


def calls_with_counts():
    """name -> fn(d, n, m): uses a basis with space_dim(d, n) functions and m nodes,
    which have to be equal."""
    def face(d):
        f = mp.faces_for_shape(S(d))[0]
        return f, mp.quadrature_for_space(P(d - 1, 4), S(d - 1))

    q = lambda d: mp.quadrature_for_space(P(d, 4), S(d))  # noqa: E731
    return {
        "resampling": lambda d, n, m: mp.resampling_matrix(
            onb(d, n).functions, pts(d, 4), pts(d, m)),
        "differentiation": lambda d, n, m: mp.differentiation_matrices(
            onb(d, n).functions, onb(d, n).gradients, pts(d, m)),
        "differentiation-from": lambda d, n, m: mp.differentiation_matrices(
            onb(d, n).functions, onb(d, n).gradients, pts(d, 3), pts(d, m)),
        "diff": lambda d, n, m: mp.diff_matrices(onb(d, n), pts(d, m)),
        "diff-from": lambda d, n, m: mp.diff_matrices(onb(d, n), pts(d, 5), pts(d, m)),
        "test-matrix": lambda d, n, m: mp.nodal_quadrature_test_matrix(
            q(d), onb(d, n).functions, onb(d, n).functions, pts(d, m)),
        "bilinear-in": lambda d, n, m: mp.nodal_quadrature_bilinear_form_matrix(
            q(d), onb(d, 1).functions, onb(d, n).functions, onb(d, 1).functions,
            onb(d, n).functions, pts(d, m), pts(d, d + 1)),
        "bilinear-out": lambda d, n, m: mp.nodal_quadrature_bilinear_form_matrix(
            q(d), onb(d, n).functions, onb(d, 1).functions, onb(d, n).functions,
            onb(d, 1).functions, pts(d, d + 1), pts(d, m)),
        "bilinear-both": lambda d, n, m: mp.nodal_quadrature_bilinear_form_matrix(
            q(d), onb(d, n).functions, onb(d, n).functions, onb(d, n).functions,
            onb(d, n).functions, pts(d, m)),
        "quad-mass": lambda d, n, m: mp.nodal_quad_mass_matrix(
            q(d), onb(d, n).functions, pts(d, m)),
        "face-quad-mass": lambda d, n, m: mp.nodal_quad_mass_matrix_for_face(
            *face(d), onb(d, n).functions, pts(d, m)),
        "face-mass-face": lambda d, n, m: mp.nodal_mass_matrix_for_face(
            *face(d + 1), onb(d, n).functions, onb(d + 1, 1).functions,
            pts(d + 1, d + 2), pts(d, m)),
        "face-mass-volume": lambda d, n, m: mp.nodal_mass_matrix_for_face(
            *face(d), onb(d - 1, 1).functions if d > 1 else onb(0, 0).functions,
            onb(d, n).functions, pts(d, m), pts(d - 1, d) if d > 1 else np.zeros((0, 1))),
    }


COUNTS = list(calls_with_counts())

class MODEL(GridModel):
    id = "C30"
    bounds = ("every function of a space and a shape on every pair of 17 kinds of spaces "
              "and shapes (all simplices of dim 0..4, products and nestings in every "
              "factor order, foreign objects) x orders; every function of one space or "
              "shape on every kind; every table rule in dims -1..5 x orders -3..90; every "
              "matrix builder x basis sizes x node counts; parameters of 1-D rules and "
              "maps; array shapes and axes of the tensor product reshapes")
    assumptions = ["a rejection is any exception; its type is only fixed where documented"]

    def grids(self, tier):
        q = tier == "quick"
        yield "pair", {"fn": PAIR, "sp": KINDS, "sh": KINDS,
                       "n": [2, 0] if q else [2, 0, 1, 5], "nest": [0, 1, 2, 3]}
        yield "single", {"fn": ["node_tuples", "random", "vertices", "faces",
                                "submesh", "space"], "kind": KINDS, "n": [1, 2, 3]}
        yield "orders", {"kind": [k for k in KINDS if isinstance(k, tuple)],
                         "ns": [(), (1,), (2, 1), (1, 2), (2, 1, 3), (1, 1, 1, 1), 2]}
        yield "table", {"rule": list(RULES), "dim": [-1, 0, 1, 2, 3, 4, 5],
                        "n": list(range(-3, 91))}
        yield "count", {"fn": COUNTS, "d": [1, 2], "n": [0, 1, 2, 3] if q else range(5),
                        "m": list(range(1, 12 if q else 17)), "variant": [0, 1]}
        yield "ortho", {"kind": [k for k in KINDS if not isinstance(k, str)],
                        "n": [0, 1, 2], "basis": ["basis", "onb", "monomial"]}
        yield "rule1d", {"case": list(range(len(RULE1D)))}
        yield "submesh", {"sp": [k for k in KINDS if not isinstance(k, str)],
                          "sh": [k for k in KINDS if not isinstance(k, str)],
                          "n": [1, 2, 3], "nest": [0, 1]}
        yield "points", {"what": ["onb", "monomial", "basis", "faces", "affine"],
                         "kind": [k for k in KINDS if not isinstance(k, str)],
                         "n": [1, 2, 3], "rows": list(range(7)), "cols": [1, 2, 4]}
        yield "reshape", {"kind": [k for k in KINDS if isinstance(k, tuple)],
                          "n": [1, 2], "lead": [(), (3,), (2, 3)], "off": [-1, 0, 1],
                          "axis": list(range(-6, 6))}

    def valid(self, name, cfg):
        if name == "pair":
            if cfg["nest"] & 1 and not nested(cfg["sp"]):
                return False
            if cfg["nest"] & 2 and not nested(cfg["sh"]):
                return False
        if name == "submesh" and cfg["nest"] and not nested(cfg["sh"]):
            return False
        if name == "count":
            return cfg["variant"] == 0 or cfg["fn"] == "resampling"
        return True

    # {{{ pairs

    def obs_pair(self, ctx, fn, sp, sh, n, nest):
        space, shape = mk_space(sp, n, nest & 1), mk_shape(sh, nest & 2)
        f = FN[fn]
        if isinstance(sp, str) or isinstance(sh, str):
            ctx.raises("unknown", Exception, lambda: self._force(f, space, shape, n),
                       f"{fn} of {sp} on {sh}")
            return
        if sp != sh:
            ctx.raises("mismatch", Exception, lambda: self._force(f, space, shape, n),
                       f"{fn} of {sp} on {sh}")
            return
        dims = [sp] if isinstance(sp, int) else list(sp)
        factors = [(d, n) for d in dims]
        if fn == "onb" and max(dims, default=0) > 3:
            ctx.raises("dimension", NotImplementedError,
                       lambda: self._force(f, space, shape, n))
            return
        if fn == "basis" and max(dims, default=0) > 3 and len(dims) > 1:
            return
        r = f(space, shape)
        N, D = ref.space_dim(factors), sum(dims)
        if fn in ("basis", "onb", "monomial"):
            ctx.eq("functions", len(r.functions), N)
            ctx.eq("modes", len(r.mode_ids), N)
            if dims == [0]:
                return
            x = ref.generic_points(dims, 4)
            for g in r.functions:
                ctx.eq("shape", np.shape(g(x)), (4,))
        elif fn == "quadrature":
            ctx.eq("shape", r.nodes.shape, (D, len(r.weights)))
            ctx.true("exact", r.exact_to >= n, r)
            ctx.close("volume", r.weights.sum(),
                      math.prod(2.0**d / math.factorial(d) for d in dims), 1e-12)
        else:
            ctx.eq("shape", r.shape, (D, N))

    def _force(self, f, space, shape, n):
        """Call *f*; a basis that cannot list its functions counts as rejected."""
        r = f(space, shape)
        if isinstance(r, mp.Basis):
            r = r.functions
        return r

    # }}}

    # {{{ functions of one space or shape

    def obs_single(self, ctx, fn, kind, n):
        space, shape = mk_space(kind, n, False), mk_shape(kind, False)
        x = space if fn == "node_tuples" else shape
        call = {
            "node_tuples": lambda y: mp.node_tuples_for_space(y),
            "random": lambda y: mp.random_nodes_for_shape(
                y, n, np.random.default_rng(3)),
            "vertices": lambda y: mp.unit_vertices_for_shape(y),
            "faces": lambda y: mp.faces_for_shape(y),
            "submesh": lambda y: mp.submesh_for_shape(y, mp.node_tuples_for_space(
                space if not isinstance(kind, str) else P(2, n))),
            "space": lambda y: mp.space_for_shape(y, n)}[fn]
        if isinstance(kind, str):
            ctx.raises("unknown", NotImplementedError, lambda: call(x), f"{fn} of {kind}")
            return
        # the wrong category: a space for a shape and the other way around
        wrong = shape if fn == "node_tuples" else space
        ctx.raises("category", NotImplementedError, lambda: call(wrong),
                   f"{fn} of {wrong!r}")
        dims = [kind] if isinstance(kind, int) else list(kind)
        D = sum(dims)
        nv = math.prod(d + 1 for d in dims)
        if fn == "node_tuples":
            ctx.eq("count", len(call(x)), ref.space_dim([(d, n) for d in dims]))
        elif fn == "random":
            ctx.eq("shape", call(x).shape, (D, n))
        elif fn == "vertices":
            ctx.eq("shape", call(x).shape, (D, nv))
        elif fn == "space":
            r = call(x)
            ctx.eq("space", (r.spatial_dim, r.space_dim),
                   (D, ref.space_dim([(d, n) for d in dims])))
        elif fn == "submesh":
            if D > 3 or (isinstance(kind, tuple) and max(dims, default=0) > 3):
                return
            if min(dims, default=0) == 0:
                return
            el = call(x)
            ctx.true("elements", len(el) > 0 and all(len(e) == len(el[0]) for e in el))

    def obs_orders(self, ctx, kind, ns):
        shape = mk_shape(kind, False)
        if ns == 2 or len(ns) == len(kind):
            sp = mp.space_for_shape(shape, ns)
            want = [(d, 2) for d in kind] if ns == 2 else list(zip(kind, ns))
            ctx.eq("bases", [(b.spatial_dim, b.order) for b in sp.bases], want)
        else:
            ctx.raises("orders", ValueError, lambda: mp.space_for_shape(shape, ns),
                       f"{len(ns)} orders for {len(kind)} factors")

    # }}}

    def obs_table(self, ctx, rule, dim, n):
        try:
            r = RULES[rule](n, dim)
        except mp.QuadratureRuleUnavailable:
            ctx.note("unavailable")
            ctx.true("available", n not in TABLES[rule].get(dim, ()),
                     "a tabulated rule is reported as unavailable")
            return
        ctx.true("dimension", r.nodes.shape == (dim, len(r.weights)), r.nodes.shape)
        ctx.true("order", n >= 0 and r.exact_to >= n,
                 f"order {n} was answered by a rule of order {r.exact_to}")
        ctx.note((n, dim))

    def obs_count(self, ctx, fn, d, n, m, variant):
        f = calls_with_counts()[fn]
        N = ref.space_dim([(d, n)])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if variant:
                r = mp.resampling_matrix(onb(d, n).functions, pts(d, 4), pts(d, m),
                                         least_squares_ok=True)
                ctx.eq("least-squares", r.shape, (4, m))
            elif N == m:
                r = f(d, n, m)
                ctx.true("finite", all(np.isfinite(a).all() for a in
                                       (r if isinstance(r, tuple) else (r,))))
            else:
                ctx.raises("count", Exception, lambda: f(d, n, m),
                           f"{N} functions with {m} nodes")

    def obs_ortho(self, ctx, kind, n, basis):
        dims = [kind] if isinstance(kind, int) else list(kind)
        if max(dims, default=0) > 3 and basis != "monomial" \
                and (basis == "onb" or len(dims) > 1):
            return
        space, shape = mk_space(kind, n, False), mk_shape(kind, False)
        b = FN[basis](space, shape)
        N, D = ref.space_dim([(d, n) for d in dims]), sum(dims)
        x = ref.generic_points(dims, N)
        mono = basis == "monomial" or max(dims, default=0) > 3
        if mono and dims:
            ctx.raises("weight", mp.BasisNotOrthonormal, b.orthonormality_weight)
            ctx.raises("mass", NotImplementedError, lambda: mp.mass_matrix(b, x))
            ctx.raises("inverse", NotImplementedError,
                       lambda: mp.inverse_mass_matrix(b, x))
        elif dims:
            ctx.eq("weight", b.orthonormality_weight(), 1)
            ctx.eq("mass", mp.mass_matrix(b, x).shape, (N, N))
        if D and max(dims) <= 3 and min(dims):
            ctx.eq("gradients", [len(g(x)) for g in b.gradients], [D] * N)
        elif isinstance(kind, int) and D > 3 and not mono:
            ctx.raises("gradients", NotImplementedError, lambda: b.gradients)

    def obs_submesh(self, ctx, sp, sh, n, nest):
        """Node tuples of another dimension than the shape are rejected."""
        tup = mp.node_tuples_for_space(mk_space(sp, n, False))
        shape = mk_shape(sh, nest)
        da = sp if isinstance(sp, int) else sum(sp)
        db = sh if isinstance(sh, int) else sum(sh)
        if da != db:
            ctx.raises("mesh", Exception, lambda: mp.submesh_for_shape(shape, tup),
                       f"{da}-d node tuples on {sh}")
        elif sp == sh and 0 < db <= 3 and 0 not in ([sh] if isinstance(sh, int) else sh):
            els = mp.submesh_for_shape(shape, tup)
            nv = math.prod(d + 1 for d in ([sh] if isinstance(sh, int) else sh))
            ctx.eq("vertices", {len(e) for e in els}, {nv})
            # one tuple of another length among them
            tup = list(tup)
            for i in range(len(tup)):
                for t in (tup[i][:-1], (*tup[i], 0), tup[i][1:], (0, *tup[i])):
                    bad = [*tup[:i], t, *tup[i + 1:]]
                    ctx.raises("mesh-mixed", Exception,
                               lambda bad=bad: mp.submesh_for_shape(shape, bad),
                               f"tuple {i} of {sh} replaced by {t}")

    def obs_points(self, ctx, what, kind, n, rows, cols):
        """Points with another number of coordinates are rejected everywhere."""
        from modepy.tools import AffineMap
        dims = [kind] if isinstance(kind, int) else list(kind)
        D = sum(dims)
        x = -0.5 + np.arange(rows * cols, dtype=float).reshape(rows, cols) / (
            8 * max(rows * cols, 1))
        if what == "affine":
            if n == 1 and D:
                m = AffineMap(np.eye(D) + 1, np.arange(D, dtype=float))
                if rows == D:
                    ctx.eq("affine", m(x).shape, (D, cols))
                else:
                    ctx.raises("affine", Exception, lambda: m(x),
                               f"map in {D} dimensions of {rows}-dimensional points")
            return
        if what == "faces":
            if n > 1 or D > 3 or D == 0:
                return
            try:
                faces = mp.faces_for_shape(mk_shape(kind, False))
            except NotImplementedError:
                return
            for i, f in enumerate(faces):
                if rows == D - 1:
                    ctx.eq("face", f.map_to_volume(x).shape, (D, cols))
                else:
                    ctx.raises("face", Exception, lambda f=f: f.map_to_volume(x),
                               f"face {i} of dimension {D - 1}, {rows}-d points")
            return
        if not 0 < D <= 4 or max(dims) > 3 or 0 in dims:
            return
        b = FN[what](mk_space(kind, n, False), mk_shape(kind, False))
        parts = [("functions", list(b.functions), False),
                 ("gradients", list(b.gradients), True)]
        parts += [(f"derivatives {a}", list(b.derivatives(a)), False) for a in range(D)]
        for name, fs, grad in parts:
            for i, f in enumerate(fs):
                if rows == D:
                    r = f(x)
                    if grad and D > 1:
                        ctx.eq(name, [np.shape(np.broadcast_to(c, (cols,)))
                                      for c in r], [(cols,)] * D)
                    continue
                ctx.raises(name, Exception, lambda f=f: f(x),
                           f"function {i} of {D} variables at {rows}-d points")

    def obs_rule1d(self, ctx, case):
        what, ok, f = RULE1D[case]
        if ok is None:
            r = f()
            ctx.true(what, r is not None)
        else:
            ctx.raises(what, ok, f, what)

    def obs_reshape(self, ctx, kind, n, lead, off, axis):
        from modepy.tools import (
            reshape_array_for_tensor_product_space as rs,
            unreshape_array_for_tensor_product_space as ur,
        )
        space = mk_space(kind, n, False)
        N = ref.space_dim([(d, n) for d in kind])
        per = [ref.space_dim([(d, n)]) for d in kind]
        k = len(per)
        for pos in range(len(lead) + 1):
            sh = (*lead[:pos], N + off, *lead[pos:])
            ary = np.arange(math.prod(sh), dtype=float).reshape(sh)
            ax = axis + len(sh) if axis < 0 else axis
            if 0 <= ax < len(sh) and sh[ax] == N:
                got = rs(space, ary, axis)
                ctx.eq("reshape", got.shape, (*sh[:ax], *per, *sh[ax + 1:]))
                back = ur(space, got, axis)
                ctx.eq("roundtrip", back.shape, sh)
                ctx.true("values", (back == ary).all())
            else:
                ctx.raises("axis", ValueError, lambda: rs(space, ary, axis),
                           f"axis {axis} of {sh} for {N} functions")
            if k:
                tp = (*lead[:pos], *per[:-1], per[-1] + off, *lead[pos:])
                t = np.zeros(tp)
                na = len(tp) - k + 1
                ax = axis + na if axis < 0 else axis
                if 0 <= ax < na and tp[ax:ax + k] == tuple(per):
                    ctx.eq("unreshape", ur(space, t, axis).shape,
                           (*tp[:ax], N, *tp[ax + k:]))
                else:
                    ctx.raises("unaxis", ValueError, lambda: ur(space, t, axis),
                               f"axis {axis} of {tp} for {per}")


def _cases():
    from modepy.modal_decay import interp_error_coefficient_estimator_matrix
    from modepy.modal_decay import degree_vector
    from modepy.quadrature import Transformed1DQuadrature
    from modepy.quadrature.construction import (
        find_weights_undetermined_coefficients as fw,
        quad_residual_and_jacobian as qrj,
    )
    from modepy.quadrature.kronrod import quadgk
    from modepy.quadrature import transplanted as tr
    from modepy.tools import estimate_lebesgue_constant
    out = []

    def bad(what, f, exc=Exception):
        out.append((what, exc, f))

    def good(what, f):
        out.append((what, None, f))

    for n in range(-3, 4):
        (good if n >= 1 else bad)(f"Clenshaw-Curtis {n}",
                                  lambda n=n: mp.ClenshawCurtisQuadrature(n))
        for kind in (0, 1, 2, 3, None, "1"):
            fine = kind in (1, 2) and n >= kind
            (good if fine else bad)(f"Fejer {n} {kind}",
                                    lambda n=n, kind=kind: mp.FejerQuadrature(n, kind))
        if n >= 0:
            good(f"Legendre-Gauss {n}", lambda n=n: mp.LegendreGaussQuadrature(n))
            good(f"Grundmann-Moeller {n}",
                 lambda n=n: mp.GrundmannMoellerSimplexQuadrature(n, 2))
        (good if n >= 1 else bad)(f"Lobatto {n}",
                                  lambda n=n: mp.LegendreGaussLobattoQuadrature(n))
        for kind in (0, 1, 2, 3):
            if n < 0 and kind in (1, 2):
                continue  # an empty rule is exact for nothing
            (good if kind in (1, 2) else bad)(
                f"Chebyshev-Gauss {n} {kind}",
                lambda n=n, kind=kind: mp.ChebyshevGaussQuadrature(n, kind))
    for backend in ("builtin", "scipy", None, "numpy", "", "Scipy"):
        (good if backend in ("builtin", "scipy", None) else bad)(
            f"backend {backend}",
            lambda b=backend: mp.JacobiGaussQuadrature(0, 0, 3, backend=b))
    for a, b in itertools.product([-1.5, -1.0, -0.5, 0, 0.5], repeat=2):
        if a > -1 and b > -1:
            (bad if (a + b == -1 and a != b) else good)(
                f"Jacobi {a} {b}",
                lambda a=a, b=b: mp.JacobiGaussQuadrature(a, b, 3, backend="builtin"))
    for left, right in itertools.product([-1.0, 0.0, 2.0], repeat=2):
        (good if left < right else bad)(
            f"interval {left} {right}", lambda a=left, b=right: Transformed1DQuadrature(
                mp.LegendreGaussQuadrature(2), a, b), ValueError) \
            if left >= right else good(
                f"interval {left} {right}",
                lambda a=left, b=right: Transformed1DQuadrature(
                    mp.LegendreGaussQuadrature(2), a, b))
    s = np.array([-0.5, 0.0, 0.5])
    for rho in (-1.0, 0.0, 0.5, 1.0, 1.5, 3.0):
        for name in ("strip", "kte"):
            f = {"strip": lambda rho=rho: tr.map_strip(s, rho=rho),
                 "kte": lambda rho=rho: tr.map_kosloff_tal_ezer(s, rho=rho)}[name]
            good(f"{name} {rho}", f) if rho > 1 else bad(f"{name} {rho}", f, ValueError)
    for alpha in (-0.5, 0.0, 0.5, 1.0, 2.0, math.nan, math.inf):
        f = lambda a=alpha: tr.map_kosloff_tal_ezer(s, alpha=a)  # noqa: E731
        good(f"alpha {alpha}", f) if 0 < alpha < 1 else bad(f"alpha {alpha}", f,
                                                           ValueError)
    for deg in range(-3, 12):
        f = lambda k=deg: tr.map_sausage(s, degree=k)  # noqa: E731
        good(f"sausage {deg}", f) if deg > 0 and deg % 2 else bad(f"sausage {deg}", f,
                                                                 ValueError)
    for e in (-1.0, 1.0, -1.5, 2.0):
        bad(f"strip at {e}", lambda e=e: tr.map_strip(np.array([0.0, e]), rho=1.4),
            ValueError)
    for d in (0, 2, 3):
        bad(f"transplant in {d}", lambda d=d: mp.transplanted_1d_quadrature(
            mp.LegendreGaussTensorProductQuadrature(2, d), tr.map_identity), ValueError)
    bad("spectral of a simplex rule", lambda: mp.spectral_diag_nodal_mass_matrix(
        mp.XiaoGimbutasSimplexQuadrature(2, 2)), ValueError)
    bad("spectral of a 1-D rule", lambda: mp.spectral_diag_nodal_mass_matrix(
        mp.LegendreGaussQuadrature(2, force_dim_axis=True)), ValueError)
    for i in (0, 1, 2):
        qs = [mp.LegendreGaussQuadrature(2, force_dim_axis=True)] * 2
        qs.insert(i, mp.XiaoGimbutasSimplexQuadrature(2, 2))
        bad(f"spectral of a prism rule {i}", lambda qs=qs:
            mp.spectral_diag_nodal_mass_matrix(mp.TensorProductQuadrature(qs)),
            ValueError)
    bad("no exactness", lambda: mp.Quadrature(s, s).exact_to, AttributeError)
    good("exactness", lambda: mp.Quadrature(s, s, exact_to=3).exact_to)
    for n in (-1, 0, 1):
        bad(f"quadgk {n}", lambda n=n: quadgk(np.cos, *range(max(n, 0))), ValueError)
    bad("quadgk order", lambda: quadgk(np.cos, 0, 1, order=0), ValueError)
    x1 = np.linspace(-1, 1, 4)
    bad("tensor nodes without 1-D nodes", lambda: mp.tensor_product_nodes(2), ValueError)
    bad("tensor nodes given twice", lambda: mp.tensor_product_nodes([x1], x1), ValueError)
    good("tensor nodes", lambda: mp.tensor_product_nodes(2, x1))
    bad("vandermonde of nothing", lambda: mp.multi_vandermonde([], x1[None]), ValueError)
    b2 = mp.basis_for_space(P(2, 2), S(2))
    bad("degree_vector of functions", lambda: degree_vector(b2.functions), TypeError)
    bad("degree_vector of a space", lambda: degree_vector(P(2, 2)), TypeError)
    good("degree_vector", lambda: degree_vector(b2))
    x2 = mp.equispaced_nodes_for_space(P(2, 2), S(2))
    good("tail", lambda: interp_error_coefficient_estimator_matrix(x2, 1, b2))
    for k in range(5):
        bad(f"tail of {k} nodes", lambda k=k:
            interp_error_coefficient_estimator_matrix(x2[:, :k], 1, b2))
    for k in range(7, 10):
        bad(f"tail of {k} nodes", lambda k=k:
            interp_error_coefficient_estimator_matrix(np.resize(x2, (2, k)), 1, b2))
    # vector functions with differing numbers of components
    g2 = b2.gradients
    for i, k in itertools.product(range(6), (1, 3)):
        gs = list(g2)
        gs[i] = lambda x, k=k: (x[0],) * k
        bad(f"function {i} with {k} components",
            lambda gs=gs: mp.multi_vandermonde(gs, x2))
        bad(f"function {i} with {k} components",
            lambda gs=gs: mp.differentiation_matrices(b2.functions, gs, x2))
    fs = b2.functions
    ds = [b2.derivatives(0), b2.derivatives(1)]
    w = np.ones(6)
    for k in range(4, 9):
        good(f"weights {k}", lambda: fw(fs, x2, w)) if k == 6 else bad(
            f"weights {k}", lambda k=k: fw(fs, x2, np.ones(k)), ValueError)
    for k in range(4):
        dd = (ds * 2)[:k]
        good("residual", lambda: qrj(x2, w, fs, ds, w)) if k == 2 else bad(
            f"residual with {k} axes", lambda dd=dd: qrj(x2, w, fs, dd, w), ValueError)
    for i, k in itertools.product(range(2), (0, 5, 7)):
        dd = list(ds)
        dd[i] = (ds[i] + ds[i])[:k]
        bad(f"residual with {k} derivatives on axis {i}",
            lambda dd=dd: qrj(x2, w, fs, dd, w), ValueError)
    for k, j in itertools.product((0, 1, 3, 5, 7), repeat=2):
        dd = [(d * 2)[:m] for d, m in zip(ds, (k, j))]
        bad(f"residual with {k}, {j} derivatives",
            lambda dd=dd: qrj(x2, w, fs, dd, w), ValueError)
    from modepy.quadrature.construction import LinearCombinationIntegrand, linearly_combine
    flat = [linearly_combine(np.ones(6), fs)] * 6
    for k, mk, gs in itertools.product(
            range(9), (linearly_combine, LinearCombinationIntegrand), (list(fs), flat)):
        (good if k == 6 else bad)(f"{mk.__name__} of {k} coefficients",
                                  lambda k=k, mk=mk, gs=gs: mk(np.ones(k), gs)(x2))
    from modepy import shapes as shp
    sfm = getattr(shp, "_simplex_face_to_vol_map", None)      # private: may be renamed
    hfm = getattr(shp, "_hypercube_face_to_vol_map", None)
    for name, fn, cols in (("simplex", sfm, lambda d: d),
                           ("cube", hfm, lambda d: 2 ** (d - 1))):
        if fn is None:
            continue
        for d, k in itertools.product(range(1, 4), range(1, 6)):
            v = ref.generic_points([d], 5)[:, :k]
            f = lambda fn=fn, v=v, d=d: fn(v, np.zeros((d - 1, 2)))  # noqa: E731
            what = f"{name} face in {d}-d with {k} vertices"
            good(what, f) if k == cols(d) else bad(what, f, ValueError)
    if hfm is not None:
        bad("cube face in 4-d", lambda: hfm(np.zeros((4, 8)), np.zeros((3, 2))),
            NotImplementedError)
    for i, j in itertools.product(range(3), repeat=2):
        sp = mp.TensorProductSpace((P(2, i), P(1, j)))
        f = lambda sp=sp: sp.order + 1  # noqa: E731
        good(f"order of a prism {i} {j}", f) if i == j else bad(
            f"order of a prism {i} {j}", f, AttributeError)
    for n, d, name in itertools.product(
            (2.5, 0.5, "2", None), (1, 2, 3),
            ("basis_for_space", "monomial_basis_for_space", "orthonormal_basis_for_space",
             "quadrature_for_space", "equispaced_nodes_for_space",
             "edge_clustered_nodes_for_space")):
        fn = getattr(mp, name)
        bad(f"{name} of P^{n} in {d}-d", lambda fn=fn, n=n, d=d: fn(P(d, n), S(d)))
        bad(f"{name} of Q^{n} in {d}-d",
            lambda fn=fn, n=n, d=d: fn(mp.QN(d, n), mp.Hypercube(d)))
    for d in range(4, 6):
        bad(f"submesh in {d}-d", lambda d=d: mp.submesh_for_shape(
            S(d), mp.node_tuples_for_space(P(d, 1))), NotImplementedError)
    for a, b in itertools.product(range(1, 4), repeat=2):
        x = mp.equispaced_nodes_for_space(P(a, 2), S(a))
        f = lambda x=x, b=b: estimate_lebesgue_constant(2, x, shape=S(b))  # noqa: E731
        good(f"lebesgue {a}", f) if a == b else bad(f"lebesgue {a} {b}", f, ValueError)
    return out


RULE1D = _cases()
