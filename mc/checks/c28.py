"""C28: results depend on the values of array arguments only: not on their memory layout,
their writability, integer versus float storage, or the other points of a batch; and
arguments are never modified."""
import itertools
import warnings

import numpy as np

import modepy as mp
import modepy.modal_decay as md
import modepy.modes as modes
import modepy.quadrature.construction as qc
import modepy.quadrature.transplanted as tp
import modepy.tools as mt
from mc import apicalls as api
from mc.engine import Model

LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "offset", "int"]


def lay(x, how):
    """x stored in another way, together with the buffer behind it."""
    x = np.array(x)
    if how == "C":
        return np.ascontiguousarray(x)
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * s + 1 for s in x.shape), 1234, x.dtype)
        v = big[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == "reversed":
        v = np.array(x[(slice(None, None, -1),) * x.ndim])
        return v[(slice(None, None, -1),) * x.ndim]
    if how == "readonly":
        x.flags.writeable = False
        return x
    if how == "offset":
        big = np.full(x.size + 3, 1234, x.dtype)
        big[2:2 + x.size] = x.ravel()
        return big[2:2 + x.size].reshape(x.shape)
    if how == "int":
        return x.astype(np.int64)
    raise ValueError(how)


PTS = {1: np.array([[-1, 0, 1.0]]),
       2: np.array([[-1, 1, -1, 0, 0], [-1, -1, 1.0, -1, 0]]),
       3: np.array([[-1, 1, -1, -1, 0, -1], [-1, -1, 1, -1, -1, 0],
                    [-1, -1, -1, 1.0, -1, 0]])}
GEN = {1: np.array([[-.9, -.3, .2, .77]]),
       2: np.array([[-.9, -.3, .2, -.5, -1], [-.8, -.4, -.3, .1, 1]]),
       3: np.array([[-.9, -.6, -.1, -.5, -1], [-.8, -.4, -.7, -.1, -1],
                    [-.7, -.9, -.9, -.8, 1]])}


def _basis(kind, d, n=2):
    get = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
           "default": mp.basis_for_space}[kind]
    return get(mp.PN(d, n), mp.Simplex(d))


def _tpb():
    s = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
    return mp.orthonormal_basis_for_space(mp.space_for_shape(s, (2, 1)), s)


# name -> (function, [argument values]); POINTWISE: one argument (d, n), result (.., n)
ARGS = {}
POINTWISE = {}


def _pw(name, fn, d, ints=True):
    POINTWISE[name] = (fn, d)
    ARGS[name] = (fn, [GEN[d]])
    if ints:
        ARGS[name + "@vertices"] = (fn, [PTS[d]])


def _quadsum(nodes, weights):
    q = mp.Quadrature(nodes, weights, 3)
    t = mp.TensorProductQuadrature([q, q])
    return [q(lambda x: x[0] + x[1]**2), q(lambda x: np.array([x[0], 1 + 0 * x[1]])),
            t.nodes, t.weights]


def _grad(x):
    return np.array([[np.sin(x[0]), x[0] * x[-1]]])


def _reg():
    for d in (1, 2, 3):
        for kind in ("onb", "mono", "default"):
            b = _basis(kind, d)
            _pw(f"{kind}{d}", lambda x, b=b: np.array([f(x) for f in b.functions]), d)
            _pw(f"grad-{kind}{d}",
                lambda x, b=b: np.array([g(x) for g in b.gradients]), d)
            _pw(f"der-{kind}{d}",
                lambda x, b=b, d=d: np.array([g(x) for g in b.derivatives(d - 1)]), d)
        _pw(f"unit-to-bary{d}", mt.unit_to_barycentric, d)
        _pw(f"e2u{d}", mt.equilateral_to_unit, d)
        _pw(f"e2u-inv{d}", mt.EQUILATERAL_TO_UNIT_MAP[d].inverse, d)
        for f in mp.faces_for_shape(mp.Simplex(d)) if d > 1 else []:
            _pw(f"face{d}.{f.face_index}", f.map_to_volume, d - 1)
        b = _basis("onb", d)
        x = mp.warp_and_blend_nodes(d, 2)
        y = mp.equidistant_nodes(d, 2)
        ARGS[f"vdm{d}"] = (lambda x, b=b: mp.vandermonde(b.functions, x), [x])
        ARGS[f"mvdm{d}"] = (lambda x, b=b: mp.multi_vandermonde(b.gradients, x), [x])
        ARGS[f"resample{d}"] = (
            lambda x, y, b=b: mp.resampling_matrix(b.functions, x, y), [x, y])
        ARGS[f"lsq{d}"] = (
            lambda x, y, b=b: mp.resampling_matrix(
                b.functions, x, y, least_squares_ok=True), [GEN[d], np.hstack([y, x])])
        ARGS[f"diff{d}"] = (
            lambda x, y, b=b: mp.differentiation_matrices(
                b.functions, b.gradients, x, y), [GEN[d], y])
        ARGS[f"diffm{d}"] = (lambda x, b=b: mp.diff_matrices(b, x), [x])
        ARGS[f"mass{d}"] = (lambda x, b=b: [
            mp.mass_matrix(b, x), mp.inverse_mass_matrix(b, x)], [x])
        ARGS[f"leb{d}"] = (lambda x, d=d: mt.estimate_lebesgue_constant(
            2, x, mp.Simplex(d)), [y])
        ARGS[f"tail{d}"] = (lambda x, b=b: md.interp_error_coefficient_estimator_matrix(
            x, 1, b), [y])
        q = mp.quadrature_for_space(mp.PN(d, 5), mp.Simplex(d))

        def nodal(qx, qw, xi, xo, b=b):
            q = mp.Quadrature(qx, qw, 5)
            return [mp.nodal_quadrature_bilinear_form_matrix(
                    q, b.functions, b.functions, b.functions, b.functions, xi, xo),
                mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, xi)]
        ARGS[f"nodal{d}"] = (nodal, [q.nodes, q.weights, x, y])

    b = _tpb()
    _pw("onb-prism", lambda x: np.array([f(x) for f in b.functions]), 3)
    _pw("grad-prism", lambda x: np.array([g(x) for g in b.gradients]), 3)
    # user-built products whose factors are of different kinds
    for kinds in (("mono", "onb"), ("onb", "mono"), ("mono", "mono")):
        for dims in ((1, 1), (2, 1), (1, 2)):
            t = mp.TensorProductBasis([_basis(k, d) for k, d in zip(kinds, dims)],
                                      dims_per_basis=dims)
            n = f"{kinds[0]}{dims[0]}x{kinds[1]}{dims[1]}"
            _pw(n, lambda x, t=t: np.array([f(x) for f in t.functions]), sum(dims))
            _pw(f"grad-{n}",
                lambda x, t=t: np.array([g(x) for g in t.gradients]), sum(dims))
            for a in range(sum(dims)):
                _pw(f"der-{n}-{a}", lambda x, t=t, a=a: np.array(
                    [g(x) for g in t.derivatives(a)]), sum(dims))
    for n in range(5):
        _pw(f"jacobi{n}", lambda x, n=n: mp.jacobi(0.5, 1, n, x[0]), 1)
        _pw(f"grad-jacobi{n}", lambda x, n=n: mp.grad_jacobi(0.5, 1, n, x[0]), 1)
        _pw(f"scaled-jacobi{n}", lambda x, n=n: mp.scaled_jacobi(0.5, 1, n, x[0]), 1)
    for d, e in ((1, (3,)), (2, (1, 2)), (2, (0, 0)), (3, (2, 0, 1))):
        _pw(f"Monomial{e}", lambda x, e=e: mt.Monomial(e, 2)(x) + 0 * x[0], d)
        _pw(f"monomial{e}", lambda x, e=e: modes.monomial(e, x), d)
        _pw(f"grad_monomial{e}", lambda x, e=e: np.array(modes.grad_monomial(e, x)), d)
    _pw("affine", lambda x: mt.AffineMap(np.array([[1, 2], [0, 3]]),
                                         np.array([1, -1]))(x), 2)
    for name, m in (("identity", tp.map_identity),
                    ("sausage", lambda s: tp.map_sausage(s, 5)),
                    ("kte", lambda s: tp.map_kosloff_tal_ezer(s, rho=1.4)),
                    ("strip", lambda s: tp.map_strip(s, rho=1.5))):
        _pw(f"map-{name}", lambda x, m=m: np.array(m(x[0])), 1, ints=name != "strip")
    _pw("lincomb", lambda x: qc.linearly_combine(
        np.array([1, 2, 0.5]), [_x0, _x1, _x01])(x), 2)
    ARGS["affine-ab"] = (lambda a, b, x: [
        mt.AffineMap(a, b)(x), mt.AffineMap(a, b).inverse(x),
        float(mt.AffineMap(a, b).jacobian)],
        [np.array([[1, 2.0], [0, 4]]), np.array([1.0, -1]), PTS[2]])
    ARGS["bary"] = (lambda x: [mt.barycentric_to_unit(x)],
                    [np.array([[1, 0, 0.0], [0, 1, 0], [0, 0, 1]])])
    ARGS["bary-gen"] = (lambda x: [mt.barycentric_to_unit(x),
                                   mt.barycentric_to_equilateral(x)],
                        [np.array([[.5, .2, 0.1], [.25, .3, .8], [.25, .5, .1]])])
    ARGS["quadrature"] = (_quadsum, [GEN[2], np.array([1.0, 2, 3, 4, 5])])
    ARGS["tpnodes"] = (lambda x, y: mp.tensor_product_nodes([x, y]), [GEN[2], PTS[1]])
    ARGS["tpnodes-flat"] = (lambda x, y: mp.tensor_product_nodes([x, y]),
                            [np.array([1.0, 2, 3]), np.array([4.0, 5])])
    sp = mp.TensorProductSpace((mp.PN(2, 1), mp.PN(1, 1)))
    ARGS["reshape"] = (lambda a: mt.reshape_array_for_tensor_product_space(sp, a, 1),
                       [np.arange(24.0).reshape(2, 6, 2)])
    ARGS["unreshape"] = (
        lambda a: mt.unreshape_array_for_tensor_product_space(sp, a, 1),
        [np.arange(24.0).reshape(2, 3, 2, 2)])
    c = np.array([[8, 4, 2, 1.0], [1, -3, 2, 5]])
    ARGS["skyline"] = (md.skyline_pessimize, [c])
    ARGS["decay"] = (lambda c: md.fit_modal_decay(c, 1, 3), [c])
    ARGS["residual"] = (lambda c: md.estimate_relative_expansion_residual(c, 1, 3),
                        [np.array([[5., 3, 2, 1], [9, 4, 2, 1]])])
    ARGS["weights"] = (
        lambda x, r: qc.find_weights_undetermined_coefficients(
            _basis("mono", 1).functions, x, r),
        [np.array([[-1, 0, 1.0]]), np.array([2, 0, 1.0])])
    ARGS["weights-flat"] = (
        lambda x, r: qc.find_weights_undetermined_coefficients([_one, _id, _sq], x, r),
        [np.array([-1, 0, 1.0]), np.array([2, 0, 1.0])])
    ARGS["lincomb-coeffs"] = (
        lambda c, x: qc.linearly_combine(c, [_x0, _x1, _x01])(x),
        [np.array([1, 2, 3.0]), PTS[2]])

    def newton(x, w, r):
        z = qc.quad_residual_and_jacobian(
            x, w, [_x0, _x1, _x01],
            [[_o, _z, _x1], [_z, _o, _x0]], r)
        return [z.residual, z.dresid_dweights, z.dresid_dnodes,
                *qc.quad_gauss_newton_increment(z)]
    ARGS["newton"] = (newton, [np.array([[0, 1.0, 3], [2, -1, 1]]),
                               np.array([1.0, 2, 4]), np.array([1.0, 0, 2])])


def _x0(x):
    return x[0]


def _x1(x):
    return x[1]


def _x01(x):
    return x[0] * x[1]


def _o(x):
    return 1.0 + 0 * x[0]


def _z(x):
    return 0.0 * x[0]


def _one(x):
    return 1.0 + 0 * x


def _id(x):
    return 1.0 * x


def _sq(x):
    return x * x * 1.0



class MODEL(Model):
    id = "C28"
    bounds = ("the public functions with array arguments x every combination of storage %s "
              "of the arguments (integer storage where all values are integers); the "
              "pointwise ones x every sequence of up to 3 (thorough 5) points drawn "
              "from vertices, edges and interior points" % LAYOUTS)
    assumptions = ["the argument values of the table are representative"]

    def init(self, tier):
        self.depth = 3 if tier == "quick" else 5
        return [("args", n, ()) for n in ARGS] + [("batch", n, ()) for n in POINTWISE]

    def events(self, s, tier):
        if s[0] == "batch":
            if len(s[2]) >= self.depth:
                return []
            d = POINTWISE[s[1]][1]
            n = PTS[d].shape[1] - 1 + 2
            return list(range(min(n, 4 if self.depth == 5 and len(s[2]) > 2 else n)))
        if len(s[2]) >= len(ARGS[s[1]][1]):
            return []
        a = ARGS[s[1]][1][len(s[2])]
        return [h for h in LAYOUTS if h != "int" or (a == np.rint(a)).all()]

    def step(self, s, ev):
        return (*s[:2], (*s[2], ev))

    def describe(self, s):
        return {"function": s[1], s[0]: list(s[2])}

    def prepare(self, tier):
        _reg()
        self.want = {}
        warnings.simplefilter("ignore", np.exceptions.ComplexWarning)
        for n, (fn, args) in ARGS.items():
            self.want[n] = api.norm(fn(*[np.array(a) for a in args]))
        self.pts, self.cols = {}, {}
        for n, (fn, d) in POINTWISE.items():
            # last vertex and mid points first: the singular ones are drawn often
            x = np.hstack([PTS[d][:, ::-1][:, :PTS[d].shape[1] - 1], GEN[d][:, 2:4]])
            if n == "map-strip":
                x = x * 0.9
            self.pts[n] = x
            self.cols[n] = [fn(x[:, k:k + 1].copy()) for k in range(x.shape[1])]

    def observe(self, s, ctx):
        kind, name, path = s
        if kind == "batch":
            return self.obs_batch(ctx, name, path)
        fn, vals = ARGS[name]
        if len(path) < len(vals):
            return None
        args = [lay(v, h) for v, h in zip(vals, path)]
        bufs = [a if a.base is None else a.base for a in args]
        before = [b.copy() for b in bufs]
        out = fn(*args)
        for b, b0 in zip(bufs, before):
            ctx.close("argument-modified", b, b0, 0)
        got = api.norm(out)
        ctx.true("result", self.same(got, self.want[name]),
                 f"{name} with arguments stored as {path} gives {str(got)[:500]}; "
                 f"with plain arguments {str(self.want[name])[:500]}")
        return None

    def same(self, a, b):
        """Equal values (dtypes may differ for integer arguments)."""
        if isinstance(a, (list, tuple)) and a and a[0] == "A":
            return b[0] == "A" and a[1] == b[1] and bool(
                (np.abs(a[3] - b[3]) <= 1e-11 * (1 + np.abs(b[3]))).all())
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(
                self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (float, int, complex)) and not isinstance(a, bool):
            return abs(a - b) <= 1e-11 * (1 + abs(b))
        return a == b

    def obs_batch(self, ctx, name, path):
        fn, d = POINTWISE[name]
        x = self.pts[name][:, list(path)]
        x0 = x.copy()
        out = fn(x)
        ctx.close("argument-modified", x, x0, 0)
        if not path:
            ctx.eq("empty", np.shape(out)[-1], 0)
            return
        want = np.concatenate([self.cols[name][k] for k in path], axis=-1)
        ctx.close("pointwise", out, want, 1e-12 * (1 + np.abs(want)))
