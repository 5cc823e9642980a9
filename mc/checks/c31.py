"""C31: the plotting helpers draw the data they are given.

The matplotlib calls are recorded (and carried out, on the Agg backend): a drawing is
modelled as the list of curves, points and triangulated surfaces that reach matplotlib.
"""
import contextlib
import io
import os

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp")

import numpy as np

import modepy as mp
import modepy.tools as mtools
from mc import ref
from mc.engine import GridModel

FIELDS = ["const", "linear", "poly", "peak"]


@contextlib.contextmanager
def recording():
    """Collect what is drawn, by the data of the artists which reach the axes."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.axes as maxes
    import matplotlib.pyplot as plt
    import mpl_toolkits.mplot3d.axes3d as a3
    rec = []
    saved = []

    def wrap(owner, name, grab):
        orig = owner.__dict__[name]

        def f(self, *args, **kwargs):
            rec.append(grab(self, args, kwargs))
            return orig(self, *args, **kwargs)
        saved.append((owner, name, orig))
        setattr(owner, name, f)

    def arr(x):
        return np.array(x, copy=True)

    def surf(self, args, kwargs):
        return ("surface", args, kwargs)
    plt.close("all")
    shows = []
    old_show = plt.show
    plt.show = lambda *a, **k: shows.append(1)
    wrap(maxes.Axes, "plot", lambda s, a, k: ("plot", [arr(x) if not isinstance(x, str)
                                                        else x for x in a]))
    wrap(a3.Axes3D, "plot", lambda s, a, k: ("plot3", [arr(x) if not isinstance(x, str)
                                                       else x for x in a]))
    wrap(a3.Axes3D, "plot_trisurf", surf)
    wrap(maxes.Axes, "tricontourf", surf)
    try:
        yield rec, shows
    finally:
        plt.show = old_show
        for owner, name, orig in reversed(saved):
            setattr(owner, name, orig)
        plt.close("all")


def surface_of(entry):
    """(x, y, triangles, z) of a recorded triangulated surface, however it was passed."""
    from matplotlib.tri import Triangulation
    _, args, kwargs = entry
    kw = {k: v for k, v in kwargs.items() if k in ("triangles", "mask", "X", "Y", "Z")}
    tri, rest, kw = Triangulation.get_from_args_and_kwargs(*args, **kw)
    z = rest[0] if rest else kw["Z"]
    return (np.array(tri.x), np.array(tri.y), np.array(tri.get_masked_triangles()),
            np.array(z).reshape(-1))


def area_of(x, y, t):
    ax, ay = x[t[:, 1]] - x[t[:, 0]], y[t[:, 1]] - y[t[:, 0]]
    bx, by = x[t[:, 2]] - x[t[:, 0]], y[t[:, 2]] - y[t[:, 0]]
    return np.abs(ax * by - ay * bx) / 2


def facets(t):
    cnt = {}
    for row in t:
        for a, b in ((0, 1), (1, 2), (0, 2)):
            k = frozenset((int(row[a]), int(row[b])))
            cnt[k] = cnt.get(k, 0) + 1
    return cnt


def tiles(ctx, label, x, y, t, area):
    """The triangles cover the reference element once."""
    a = area_of(x, y, t)
    ctx.close((label, "area"), a.sum(), area, 1e-10)
    ctx.true((label, "degenerate"), (a > 1e-10).all(), "degenerate triangle")
    cnt = facets(t)
    ctx.true((label, "conforming"), max(cnt.values()) <= 2, "edge of three triangles")
    # an edge of one triangle lies on the boundary (of the triangle or the square)
    for k, c in cnt.items():
        if c == 1:
            i, j = tuple(k)
            px, py = x[[i, j]], y[[i, j]]
            on = any(np.all(np.abs(g) < 1e-10) for g in
                     ((px + 1, py + 1, px + py) if area == 2 else
                      (px + 1, py + 1, px - 1, py - 1)))
            if not ctx.true((label, "hole"), on, f"edge {px} {py} is not shared"):
                break
    ctx.true((label, "used"), len(np.unique(t)) == len(x), "nodes outside all triangles")


def field_of(name, x):
    s = x[0] + 0.5 * (x[1] if len(x) > 1 else 0)
    if name == "const":
        return 3 + 0 * s
    if name == "linear":
        return 2 - 3 * s
    if name == "poly":
        return s ** 3 - x[0] ** 2 + 0.25
    return 1 / (0.2 + s ** 2)


class MODEL(GridModel):
    id = "C31"
    bounds = ("plot_element_values: dims 1..2 x orders 0..8 (thorough 12) x resampling "
              "none / to every order 1..9 (thorough 14) x 4 fields x show_nodes x two "
              "node families x array layouts; dims 0, 3, 4 rejected; "
              "estimate_lebesgue_constant(visualize=True): segment, triangle, square x "
              "orders 1..5 (8) x node families; 3-D rejected")
    assumptions = ["the rendering of matplotlib itself is not modelled: what is checked "
                   "is the data that reaches its axes"]

    def prepare(self, tier):
        import matplotlib.pyplot as plt     # build the font cache once
        plt.figure()
        plt.close("all")

    def grids(self, tier):
        q = tier == "quick"
        top = 8 if q else 12
        yield "values", {"d": [1, 2], "n": list(range(0, top + 1)),
                         "r": [0, *range(1, top + (2 if q else 3))],
                         "field": FIELDS, "show": [0, 1]}
        yield "layout", {"d": [1, 2], "n": [1, 2, 4], "r": [0, 1, 3, 6],
                         "lay": ["fortran", "strided", "int", "readonly"]}
        yield "reject", {"d": [3, 4], "n": [1, 2], "r": [0, 3]}
        yield "lebesgue", {"shape": ["line", "triangle", "square", "cube", "tet"],
                           "n": list(range(0, 6 if q else 9)),
                           "nodes": ["equi", "edge"]}

    def valid(self, name, cfg):
        # one point is no surface
        return not (name == "values" and cfg["d"] == 2 and cfg["n"] == cfg["r"] == 0)

    # -- plot_element_values -------------------------------------------------------
    def data(self, d, n, fld):
        nodes = mp.warp_and_blend_nodes(d, n)
        return nodes, field_of(fld, nodes)

    def expected(self, d, n, r, nodes, values):
        if not r:
            return nodes, values
        fine = mp.equidistant_nodes(d, r)
        # the interpolant, by an independent basis and solve
        f = ((d, n),)
        coeff = np.linalg.solve(ref.tp_basis(f, nodes).T, values)
        return fine, ref.tp_basis(f, fine).T @ coeff

    def run_values(self, ctx, d, n, r, nodes, values, show):
        keep = (nodes.copy(), values.copy())
        with recording() as (rec, shows):
            kw = {}
            if r:
                kw["resample_n"] = r
            if show:
                kw["show_nodes"] = True
            res = mtools.plot_element_values(n, nodes, values, **kw)
            ctx.eq("result", res, None)
            ctx.eq("shown once", len(shows), 1)
        ctx.true("arguments untouched", np.array_equal(nodes, keep[0])
                 and np.array_equal(values, keep[1]))
        x, v = self.expected(d, n, r, np.asarray(nodes, float), np.asarray(values, float))
        tol = 1e-9 * max(1.0, np.abs(values).max())
        kind = "plot" if d == 1 else "surface"
        curves = [e for e in rec if e[0] == kind]
        if not ctx.true("drawn", len(curves) >= 1, f"nothing drawn: {rec!r}"):
            return
        if d == 1:
            # one curve through the interpolant; the second entry are the nodes
            self.same_points(ctx, "curve", [curves[0][1][0]], curves[0][1][1], x, v, tol)
            xs = curves[0][1][0]
            ctx.true("curve monotone", np.all(np.diff(xs) > 0) or np.all(np.diff(xs) < 0)
                     or not np.all(np.diff(x[0]) > 0), "the curve runs back")
            marks = curves[1:]
        else:
            sx, sy, t, z = surface_of(curves[0])
            self.same_points(ctx, "surface", [sx, sy], z, x, v, tol)
            tiles(ctx, "surface", sx, sy, t, 2)
            marks = [e for e in rec if e[0] == "plot3"]
        ctx.eq("marks", len(marks), int(show))
        if show and marks:
            a = [m for m in marks[0][1] if not isinstance(m, str)]
            self.same_points(ctx, "marks", a[:-1], a[-1], np.asarray(nodes, float),
                             values, tol)

    @staticmethod
    def same_points(ctx, label, pts, vals, x, v, tol):
        """The drawn points with their values are those of the model, in any order."""
        got = np.array([*[np.asarray(p, float).reshape(-1) for p in pts],
                        np.asarray(vals, float).reshape(-1)])
        want = np.array([*x, v])
        if not ctx.eq((label, "shape"), got.shape, want.shape):
            return
        gi = np.lexsort(np.round(got[:-1], 8))
        wi = np.lexsort(np.round(want[:-1], 8))
        ctx.close((label, "points"), got[:-1, gi], want[:-1, wi], 1e-10)
        ctx.close((label, "values"), got[-1, gi], want[-1, wi], tol)

    def obs_values(self, ctx, d, n, r, field, show):
        nodes, values = self.data(d, n, field)
        self.run_values(ctx, d, n, r, nodes, values, show)

    def obs_layout(self, ctx, d, n, r, lay):
        nodes, values = self.data(d, n, "poly")
        if lay == "fortran":
            nodes = np.asfortranarray(nodes)
        elif lay == "strided":
            big = np.zeros((2 * d, 2 * nodes.shape[1]))
            big[::2, ::2] = nodes
            nodes = big[::2, ::2]
            bv = np.zeros(3 * len(values))
            bv[::3] = values
            values = bv[::3]
        elif lay == "int":
            values = np.arange(len(values)) - 2
        else:
            nodes = nodes.copy()
            values = values.copy()
            nodes.flags.writeable = False
            values.flags.writeable = False
        self.run_values(ctx, d, n, r, nodes, values, 1)

    def obs_reject(self, ctx, d, n, r):
        nodes = mp.equidistant_nodes(d, n)
        with recording() as (_, shows):
            ctx.raises("dimension", (RuntimeError, NotImplementedError, ValueError),
                       lambda: mtools.plot_element_values(
                           n, nodes, nodes[0], resample_n=r or None),
                       f"plot_element_values in {d} dimensions")
            ctx.eq("shown", len(shows), 0)

    # -- Lebesgue ------------------------------------------------------------------
    def obs_lebesgue(self, ctx, shape, n, nodes):
        sh, fam = shape, nodes
        shape = {"line": mp.Simplex(1), "triangle": mp.Simplex(2),
                 "square": mp.Hypercube(2), "cube": mp.Hypercube(3),
                 "tet": mp.Simplex(3)}[sh]
        space = mp.space_for_shape(shape, n)
        nodes = (mp.equispaced_nodes_for_space if fam == "equi"
                 else mp.edge_clustered_nodes_for_space)(space, shape)
        if shape.dim == 3:
            if n > 2:
                return
            with recording() as (rec, shows):
                ctx.raises("dimension", (ValueError, NotImplementedError),
                           lambda: mtools.estimate_lebesgue_constant(
                               n, nodes, shape, visualize=True), "visualisation in 3-D")
            return
        plain = mtools.estimate_lebesgue_constant(n, nodes, shape)
        keep = nodes.copy()
        with recording() as (rec, shows), contextlib.redirect_stdout(io.StringIO()):
            c = mtools.estimate_lebesgue_constant(n, nodes, shape, visualize=True)
            ctx.eq("shown once", len(shows), 1)
        ctx.true("arguments untouched", np.array_equal(keep, nodes))
        ctx.close("constant", c, plain, 1e-12 * plain)
        f = ((1, n),) if sh == "line" else ((2, n),) if sh == "triangle" else (
            (1, n), (1, n))
        inv = np.linalg.inv(ref.tp_basis(f, nodes).T)

        def leb(x):
            return np.abs(ref.tp_basis(f, x).T @ inv).sum(axis=1)

        if sh == "line":
            cur = [e for e in rec if e[0] == "plot"]
            if not ctx.true("drawn", len(cur) >= 1):
                return
            x, y = (np.asarray(a, float).reshape(-1) for a in cur[0][1][:2])
            ctx.close("curve", y, leb(x[None]), 1e-8 * plain)
            ctx.close("peak", y.max(), plain, 1e-12 * plain)
            ctx.close("range", [x.min(), x.max()], np.array([-1.0, 1.0]), 1e-12)
            return
        sf = [e for e in rec if e[0] == "surface"]
        if not ctx.true("drawn", len(sf) == 1, f"{len(sf)} surfaces"):
            return
        x, y, t, z = surface_of(sf[0])
        want = leb(np.array([x, y]))
        # the drawing may be normalised
        ctx.close("contour shape", z * (want.max() / z.max()), want, 1e-8 * plain)
        ctx.close("peak", want.max(), plain, 1e-8 * plain)
        tiles(ctx, "contour", x, y, t, 2 if sh == "triangle" else 4)
        pts = [e for e in rec if e[0] == "plot"]
        if ctx.true("nodes drawn", len(pts) >= 1):
            a = [m for m in pts[0][1] if not isinstance(m, str)]
            self.same_points(ctx, "node marks", a, np.zeros(nodes.shape[1]), nodes,
                             np.zeros(nodes.shape[1]), 1)
