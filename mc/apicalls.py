"""A table of public API calls used by the history and schedule checks: name -> thunk.

Every thunk builds its own arguments and returns arrays / objects; ``norm`` turns the
result into plain data for comparison, ``scribble`` overwrites every array that the
caller of the API got hold of."""
import re
import warnings

import numpy as np

import modepy as mp
import modepy.modal_decay as md
import modepy.modes as modes
import modepy.quadrature.construction as qc
import modepy.quadrature.kronrod as kr
import modepy.quadrature.transplanted as tp
import modepy.tools as mt

warnings.filterwarnings("ignore", message=".*mass_matrix_for_face.*")

CALLS = {}
ALT = {}       # the same calls with other argument values


def _space(d, n):
    return mp.PN(d, n), mp.Simplex(d)


def _prism(n, m):
    s = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
    return mp.space_for_shape(s, (n, m)), s


def _plain(s):
    """Without the addresses of objects."""
    return re.sub(r"0x[0-9a-f]+", "0x", s)


def _quad(q):
    out = [q.nodes, q.weights]
    try:
        out.append(_plain(repr(q.exact_to)))
    except AttributeError:
        pass
    return out


def _reg(CALLS, v):
    for name, f in {
            "xg-tri": lambda: mp.XiaoGimbutasSimplexQuadrature(5 + v, 2),
            "xg-tet": lambda: mp.XiaoGimbutasSimplexQuadrature(4 + v, 3),
            "vr-tri": lambda: mp.VioreanuRokhlinSimplexQuadrature(3 + v, 2),
            "vr-tet": lambda: mp.VioreanuRokhlinSimplexQuadrature(2 + v, 3),
            "js": lambda: mp.JaskowiecSukumarQuadrature(4 + v, 3),
            "wv2": lambda: mp.WitherdenVincentQuadrature(5 + 2 * v, 2),
            "wv3": lambda: mp.WitherdenVincentQuadrature(3 + 2 * v, 3),
            "gm": lambda: mp.GrundmannMoellerSimplexQuadrature(2 + v, 3),
            "lg": lambda: mp.LegendreGaussQuadrature(4 + v, force_dim_axis=True),
            "jg": lambda: mp.JacobiGaussQuadrature(0.5 + v, -0.25, 4, force_dim_axis=True),
            "jg-builtin": lambda: mp.JacobiGaussQuadrature(0.5 + v, 1.5, 3, backend="builtin",
                                                           force_dim_axis=True),
            "cheb": lambda: mp.ChebyshevGaussQuadrature(3 + v, force_dim_axis=True),
            "gegen": lambda: mp.GaussGegenbauerQuadrature(0.7 + v, 3, force_dim_axis=True),
            "lgl": lambda: mp.LegendreGaussLobattoQuadrature(5 + v, force_dim_axis=True),
            "jgl": lambda: mp.JacobiGaussLobattoQuadrature(0.5 + v, 0.5, 4,
                                                           force_dim_axis=True),
            "cc": lambda: mp.ClenshawCurtisQuadrature(6 + v, force_dim_axis=True),
            "fejer": lambda: mp.FejerQuadrature(5 + v, kind=2, force_dim_axis=True),
            "kron": lambda: kr.make_kronrod_quadrature(5 + v),
            "kron2": lambda: kr.make_kronrod_quadrature(8 + v),
            "zerod": lambda: mp.ZeroDimensionalQuadrature(),
            "lgtp": lambda: mp.LegendreGaussTensorProductQuadrature(3 + v, 2),
            "lgltp": lambda: mp.LegendreGaussLobattoTensorProductQuadrature(2 + v, 3),
            "tp": lambda: mp.TensorProductQuadrature([
                mp.XiaoGimbutasSimplexQuadrature(3, 2), mp.LegendreGaussQuadrature(2 + v)]),
            "qfs-tri": lambda: mp.quadrature_for_space(*_space(2, 4 + v)),
            "qfs-tet": lambda: mp.quadrature_for_space(*_space(3, 3 + v)),
            "qfs-prism": lambda: mp.quadrature_for_space(*_prism(2, 3 - v)),
            "qfs-cube": lambda: mp.quadrature_for_space(mp.QN(3, 2 + v), mp.Hypercube(3)),
            "strip": lambda: _strip(6, 1.5 + v / 4),
            "strip2": lambda: _strip(6, 2.5 + v / 4),
            "sausage": lambda: mp.transplanted_legendre_gauss_quadrature(
                5, lambda s: tp.map_sausage(s, 9 - 4 * v), force_dim_axis=True),
            "kte": lambda: mp.transplanted_legendre_gauss_quadrature(
                5, lambda s: tp.map_kosloff_tal_ezer(s, rho=1.3 + v), force_dim_axis=True),
    }.items():
        CALLS[name] = f
    for d in (1, 2, 3):
        CALLS[f"wb{d}"] = lambda d=d: mp.warp_and_blend_nodes(d, 4 - v)
        CALLS[f"equi{d}"] = lambda d=d: mp.equidistant_nodes(d, 3 + v)
        CALLS[f"vert{d}"] = lambda d=d: mp.unit_vertices_for_shape(mp.Simplex(d))
        CALLS[f"faces{d}"] = lambda d=d: [
            [f.volume_vertex_indices, mp.face_normal(f),
             f.map_to_volume(np.full((d - 1, 2), v - 0.25))]
            for f in mp.faces_for_shape(mp.Simplex(d))]
        CALLS[f"submesh{d}"] = lambda d=d: mp.submesh_for_shape(
            mp.Simplex(d), list(mp.node_tuples_for_space(mp.PN(d, 2 + v))))
        CALLS[f"tuples{d}"] = lambda d=d: mp.node_tuples_for_space(mp.PN(d, 3 + v))
        CALLS[f"onb{d}"] = lambda d=d: _basis(mp.orthonormal_basis_for_space, d, v)
        CALLS[f"mono{d}"] = lambda d=d: _basis(mp.monomial_basis_for_space, d, v)
    CALLS["edge-prism"] = lambda: mp.edge_clustered_nodes_for_space(*_prism(3 - v, 2))
    CALLS["equi-square"] = lambda: mp.equispaced_nodes_for_space(
        mp.QN(2, 3 + v), mp.Hypercube(2))
    CALLS["tuples-prism"] = lambda: mp.node_tuples_for_space(_prism(2, 2 + v)[0])
    CALLS["faces-cube"] = lambda: [
        [f.volume_vertex_indices, mp.face_normal(f, normalize=False),
         f.map_to_volume(np.full((2, 2), 0.5 - v))]
        for f in mp.faces_for_shape(mp.Hypercube(3))]
    CALLS["submesh-cube"] = lambda: mp.submesh_for_shape(
        mp.Hypercube(3), list(mp.node_tuples_for_space(mp.QN(3, 2 - v))))
    CALLS["vert-prism"] = lambda: mp.unit_vertices_for_shape(_prism(1, 1)[1])
    CALLS["onb-prism"] = lambda: _basis_at(
        mp.orthonormal_basis_for_space(*_prism(2, 1)), 3, v)
    CALLS["default-square"] = lambda: _basis_at(
        mp.basis_for_space(mp.QN(2, 2), mp.Hypercube(2)), 2, v)
    CALLS["mode-ids"] = lambda: mp.orthonormal_basis_for_space(*_prism(2 + v, 1)).mode_ids
    CALLS["degrees"] = lambda: md.degree_vector(
        mp.orthonormal_basis_for_space(*_prism(2 + v, 1)))
    CALLS["jacobi"] = lambda: mp.jacobi(0.5 + v, 1, 4, np.linspace(-1, 1, 5))
    CALLS["grad-jacobi"] = lambda: mp.grad_jacobi(0.5 + v, 1, 4, np.linspace(-1, 1, 5))
    CALLS["scaled-jacobi"] = lambda: mp.scaled_jacobi(0.5 + v, 1, 4, np.linspace(-1, 1, 5))
    CALLS["matrices"] = lambda: _matrices(v)
    CALLS["face-matrices"] = lambda: _face_matrices(v)
    CALLS["permutation"] = lambda: mp.diff_matrix_permutation(
        list(mp.node_tuples_for_space(mp.PN(2, 3 + v))), 1)
    CALLS["symbolic"] = lambda: repr(mp.symbolicize_function(
        mp.orthonormal_basis_for_space(*_space(2, 2)).functions[4 + v], 2))
    CALLS["quadgk"] = lambda: kr.quadgk(np.exp, 0.0, 1.0 + v)
    CALLS["quadgk-inf"] = lambda: kr.quadgk(lambda x: np.exp(-x * x - v), 0.0, np.inf)
    CALLS["e2u"] = lambda: [
        mt.equilateral_to_unit(np.ones((d, 2)) * (0.1 + v)) for d in (1, 2, 3)]
    CALLS["e2u-inverse"] = lambda: [
        [m.inverse(np.full((d, 2), 0.25 + v)), float(m.jacobian)]
        for d, m in mt.EQUILATERAL_TO_UNIT_MAP.items()]
    CALLS["bary"] = lambda: [mt.barycentric_to_unit(np.full((4, 2), 0.25 + v)),
                             mt.unit_to_barycentric(np.full((2, 3), v - 0.5)),
                             mt.barycentric_to_equilateral(np.full((3, 2), 1 / 3 + v))]
    CALLS["affine"] = lambda: _affine([[1, 2], [v, 1]], [1, -1])
    CALLS["affine2"] = lambda: _affine([[3, 0], [1, 1 + v]], [0, 2])
    CALLS["decay"] = lambda: md.fit_modal_decay(
        1e-4 * np.array([[1, .5, .2 + v / 10, .1, .03]]), 1, 4)
    CALLS["lebesgue"] = lambda: mt.estimate_lebesgue_constant(
        3 + v, mp.warp_and_blend_nodes(2, 3 + v), mp.Simplex(2))
    CALLS["random"] = lambda: mp.random_nodes_for_shape(
        mp.Simplex(3), 4, rng=np.random.default_rng(3 + v))
    CALLS["shapes"] = lambda: [repr(mp.Hypercube(3 - v)), mp.Simplex(2).nfaces,
                               repr(_prism(1, 2)[0]), mp.Hypercube(3).nvertices]
    CALLS["construct"] = lambda: _construct(v)
    CALLS["reshape"] = lambda: mt.reshape_array_for_tensor_product_space(
        _prism(1, 2)[0], np.arange(v, 18.0 + v).reshape(2, 9))
    CALLS["xg-bad"] = lambda: _err(lambda: mp.XiaoGimbutasSimplexQuadrature(99, 2))
    CALLS["strip-bad"] = lambda: _err(
        lambda: _strip(3, 0.5))
    CALLS["kron-bad"] = lambda: _err(lambda: kr.make_kronrod_quadrature(0))


def _strip(n, rho):
    return mp.transplanted_legendre_gauss_quadrature(
        n, lambda s: tp.map_strip(s, rho=rho), force_dim_axis=True)


def _err(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return "accepted"


def _basis(get, d, v):
    return _basis_at(get(*_space(d, 2)), d, v)


def _basis_at(b, d, v):
    x = np.array([[-1, 0.1 - v, -0.7]] * d) + np.arange(d)[:, None] * 0.05
    x[:, 0] = -1
    x[-1, 0] = 1
    return [[f(x) for f in b.functions], [g(x) for g in b.gradients], b.mode_ids]


def _matrices(v):
    space, shape = _space(2, 3 - v)
    b = mp.orthonormal_basis_for_space(space, shape)
    x = mp.warp_and_blend_nodes(2, 3 - v)
    y = mp.equidistant_nodes(2, 3 - v)
    return [mp.vandermonde(b.functions, x), mp.multi_vandermonde(b.gradients, x),
            mp.resampling_matrix(b.functions, y, x),
            mp.differentiation_matrices(b.functions, b.gradients, x),
            mp.mass_matrix(b, x), mp.inverse_mass_matrix(b, x)]


def _face_matrices(v):
    n = 2 - v
    space, shape = _space(2, n)
    b = mp.orthonormal_basis_for_space(space, shape)
    x = mp.warp_and_blend_nodes(2, n)
    out = []
    for f in mp.faces_for_shape(shape):
        fb = mp.orthonormal_basis_for_space(mp.PN(1, n), f)
        out.append(mp.nodal_mass_matrix_for_face(
            f, mp.quadrature_for_space(mp.PN(1, 4), f), fb.functions, b.functions, x, mp.warp_and_blend_nodes(1, n)))
    return out


def _construct(v):
    b = mp.orthonormal_basis_for_space(*_space(1, 3))
    q = mp.LegendreGaussQuadrature(6, force_dim_axis=True)
    o = qc.orthogonalize_basis(
        lambda f: np.dot(f(q.nodes), q.weights),
        [lambda x: x[0] + v, lambda x: 1 + 0 * x[0]])
    return [qc.find_weights_undetermined_coefficients(
        b.functions, q.nodes[:, :4], np.array([2**0.5, 0, 0, 0])),
        [abs(f(q.nodes)) for f in o]]


def _affine(a, b):
    m = mt.AffineMap(a, b)
    return [m(np.ones((2, 2))), m.inverse(np.ones((2, 2))), float(m.jacobian)]


_reg(CALLS, 0)
_reg(ALT, 1)


def preload():
    """Import what the calls import lazily (modules only; nothing is called)."""
    import importlib
    import pkgutil
    import modepy.quadrature
    for pkg in (mp, modepy.quadrature):
        for m in pkgutil.iter_modules(pkg.__path__, pkg.__name__ + "."):
            if not m.ispkg and not m.name.endswith("__main__"):
                importlib.import_module(m.name)
    for name in ("scipy.optimize", "scipy.special", "scipy.linalg", "pymbolic.compiler",
                 "pymbolic.mapper.evaluator", "pymbolic.geometric_algebra",
                 "pymbolic.mapper.stringifier"):
        importlib.import_module(name)
    import scipy.optimize
    import scipy.special
    scipy.optimize.root_scalar, scipy.special.ellipk


def norm(x):
    """Plain data for comparison."""
    if isinstance(x, mp.Quadrature):
        return ["Q", norm(x.nodes), norm(x.weights), *_quad(x)[2:]]
    if isinstance(x, np.ndarray):
        return ["A", x.shape, x.dtype.str, np.array(x, copy=True)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, *(norm(y) for y in x)]
    if isinstance(x, np.generic):
        return ["N", x.item()]
    if isinstance(x, (str, int, float, complex, type(None))):
        return x
    if hasattr(x, "nodes") and hasattr(x, "weights"):
        return ["K", *(norm(v) for k, v in sorted(vars(x).items()) if v is not x)]
    return ["R", _plain(repr(x))]


def same(a, b, tol=1e-13):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y, tol) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))) if a.size else True
    if isinstance(a, (float, complex)):
        return abs(a - b) <= tol * (1 + abs(b))
    return a == b


def scribble(x):
    """Overwrite everything mutable the caller got."""
    if hasattr(x, "nodes") and hasattr(x, "weights"):
        for v in list(vars(x).values()):
            scribble(v)
    elif isinstance(x, np.ndarray):
        try:
            if x.dtype != object and x.flags.writeable:
                x[...] = 77
        except ValueError:
            pass
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            x.reverse()
            if x:
                x.pop()


def isolated(fn):
    """fn() evaluated in a forked copy of this process (pickled result)."""
    import os
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(("ok", fn()))
        except BaseException as e:
            data = pickle.dumps(("err", f"{type(e).__name__}: {e}\n"
                                 + traceback.format_exc()[-800:]))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(data) if data else ("err", "the process died")
    if kind == "err":
        raise RuntimeError(val)
    return val
