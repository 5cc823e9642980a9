"""C25: edge-clustered simplex nodes are the published warp & blend nodes, and the
Lebesgue constants reported for node sets are right."""
import itertools

import numpy as np

import modepy as mp
import modepy.tools as mt
from mc import ref
from mc.checks.c15 import lgl
from mc.engine import GridModel
from mc.shapes import shape_of

# Warburton (2006), Hesthaven & Warburton (2008)
ALPHA2 = [0.0, 0.0, 1.4152, 0.1001, 0.2751, 0.9800, 1.0999, 1.2832, 1.3648, 1.4773,
          1.4959, 1.5743, 1.5770, 1.6223, 1.6258]
ALPHA3 = [0.0, 0.0, 0.0, 0.1002, 1.1332, 1.5608, 1.3413, 1.2577, 1.1603, 1.10153,
          0.6080, 0.4523, 0.8856, 0.8717, 0.9655]


def alpha_for(dim, n):
    if dim == 2:
        return ALPHA2[n - 1] if n <= 15 else 5 / 3
    return ALPHA3[n - 1] if n <= 15 else 1.0


def warp(n, r):
    """(interpolant at r of the Gauss-Lobatto displacement on the equispaced nodes)
    divided by 1 - r^2; the displacement vanishes at the end points, so the division
    is done on the Lagrange polynomials."""
    eq = np.linspace(-1, 1, n + 1)
    d = lgl(n) - eq
    out = np.zeros_like(r)
    for i in range(1, n):
        L = np.full_like(r, d[i] / (1 - eq[i]**2))
        for j in range(1, n):
            if j != i:
                L = L * (r - eq[j]) / (eq[i] - eq[j])
        out += L
    return out


def face_shift(n, lam, corners, alpha):
    """Barycentric displacement of the triangle *corners* (rows of lam)."""
    out = np.zeros_like(lam)
    for i in corners:
        j, k = (c for c in corners if c != i)
        # edges have length 2; scaled warp is 4 lj lk w/(1 - r^2)
        s = 4 * lam[j] * lam[k] * warp(n, lam[j] - lam[k]) * (
            1 + (alpha * lam[i])**2) / 2
        out[j] += s
        out[k] -= s
    return out


def reference_nodes(dim, n, tuples):
    t = np.array(tuples, dtype=float).T / n
    lam = np.concatenate([1 - t.sum(axis=0, keepdims=True), t])
    a = alpha_for(dim, n)
    if dim == 2:
        lam = lam + face_shift(n, lam, (0, 1, 2), a)
    else:
        total = np.zeros_like(lam)
        boundary = (np.abs(lam) < 1e-10).any(axis=0)
        for f in range(4):
            c = [k for k in range(4) if k != f]
            s = face_shift(n, lam, c, a)
            on = boundary & (np.abs(lam[f]) < 1e-10)
            total[:, on] = s[:, on]
            inner = ~boundary
            l0 = lam[f, inner]
            b = np.prod([lam[k, inner] / (lam[k, inner] + 0.5 * l0) for k in c], axis=0)
            total[:, inner] += b * (1 + (a * l0)**2) * s[:, inner]
        lam = lam + total
    return 2 * lam[1:] - 1


def lattice(dims, m):
    """Equispaced points with m intervals per edge, as chunks of (dim, npts)."""
    blocks = []
    for d in dims:
        r = np.arange(m + 1)
        g = np.meshgrid(*[r] * d, indexing="ij")
        p = np.array([x.ravel() for x in g])
        blocks.append(2 * p[:, p.sum(axis=0) <= m] / m - 1)
    pts = blocks[0]
    for b in blocks[1:]:
        pts = np.concatenate([np.repeat(pts, b.shape[1], axis=1),
                              np.tile(b, (1, pts.shape[1]))])
    return pts


def lebesgue(dims, n, nodes, m):
    factors = [(d, n) for d in dims]
    V = ref.tp_basis(factors, nodes)
    pts = lattice(dims, m)
    best = 0.0
    for k in range(0, pts.shape[1], 20000):
        L = np.linalg.solve(V, ref.tp_basis(factors, pts[:, k:k + 20000]))
        best = max(best, np.abs(L).sum(axis=0).max())
    return best


LEB = {"line": ([1], "simplex", 12, 40), "tri": ([2], "simplex", 7, 60),
       "tet": ([3], "simplex", 4, 20), "square": ([1, 1], "cube", 6, 60),
       "square-tp": ([1, 1], "tp", 3, 60), "cube": ([1, 1, 1], "cube", 2, 20),
       "prism": ([2, 1], "tp", 2, 20), "prism2": ([1, 2], "tp", 2, 20)}
# skewK: contracted towards one vertex, which puts the maximum at another one
SETS = ["edge", "equi", "edge-permuted", "squeezed", "skew0", "skew1", "skew-1"]


class MODEL(GridModel):
    id = "C25"
    bounds = ("warp & blend: triangle orders 1..20 (thorough 28), tetrahedra 1..17 "
              "(thorough 20), lines 1..40, default and 3 further node tuple orders, "
              "via each entry point; Lebesgue constants: 8 shapes %s x orders up to the "
              "limit x node sets %s" % (list(LEB), SETS))
    assumptions = ["the published optimal parameters (Warburton 2006) are those in "
                   "Hesthaven & Warburton's reference implementation",
                   "Lebesgue reference: maximum over a twice to four times finer lattice"]

    def grids(self, tier):
        q = tier == "quick"
        yield "nodes", {"dim": [1, 2, 3], "n": list(range(1, 41)),
                        "order": ["default", "reversed", "swapped", "rotated"],
                        "how": ["direct", "space"]}
        yield "warp", {"n": list(range(1, 16)),
                       "x": [0, 0.3, 0.9, 0.97, 0.99, 0.995, 0.999, 1 - 1e-4, 1 - 1e-6,
                             1 - 1e-8, 1],
                       "sign": [1, -1], "scaled": [True, False]}
        yield "leb", {"shape": list(LEB), "n": list(range(0, 13 if q else 15)),
                      "set": SETS}
        yield "bad", {"shape": list(LEB), "delta": [-1, 1]}

    def valid(self, name, cfg):
        q = self.tier == "quick"
        if name == "nodes":
            lim = {1: 40, 2: 20 if q else 28, 3: 17 if q else 36}[cfg["dim"]]
            return cfg["n"] <= lim and (cfg["how"] == "direct"
                                        or cfg["order"] == "default")
        if name == "leb":
            return cfg["n"] <= LEB[cfg["shape"]][2] + (0 if q else 2)
        if name == "warp":
            # the division by 1 - x^2 amplifies rounding next to the ends
            return cfg["n"] <= 6 or not 1 - 1e-5 < cfg["x"] < 1
        return len(LEB[cfg["shape"]][0]) + cfg["delta"] > 0

    def obs_nodes(self, ctx, dim, n, order, how):
        tuples = [t for t in itertools.product(range(n + 1), repeat=dim)
                  if sum(t) <= n]
        if how == "space":
            space = mp.PN(dim, n)
            got = mp.edge_clustered_nodes_for_space(space, mp.Simplex(dim))
            tuples = [tuple(t) for t in mp.node_tuples_for_space(space)]
        elif order == "default":
            got = mp.warp_and_blend_nodes(dim, n)
            tuples = [tuple(t) for t in mp.node_tuples_for_space(mp.PN(dim, n))]
        else:
            if order == "reversed":
                tuples = tuples[::-1]
            elif order == "swapped":
                tuples = [t[::-1] for t in tuples]
                tuples.sort(key=lambda t: (sum(t), t))
            else:
                tuples = tuples[len(tuples) // 3:] + tuples[:len(tuples) // 3]
            got = mp.warp_and_blend_nodes(dim, n, tuples)
        if dim == 1:
            want = lgl(n)[[t[0] for t in tuples]].reshape(1, -1)
        else:
            want = reference_nodes(dim, n, tuples)
        ctx.close("nodes", got, want, 1e-8 if n <= 15 else 1e-6)

    def obs_warp(self, ctx, n, x, sign, scaled):
        """The one-dimensional displacement off the nodes (tetrahedra of high order get
        arbitrarily close to the ends); vanishes at the end points by convention."""
        from modepy.nodes import warp_factor
        r = np.array([sign * x, 0.1])
        got = warp_factor(n, r, scaled=scaled)
        want = warp(n, r)
        if not scaled:
            want = want * (1 - r**2)
        elif x == 1:
            want[0] = 0
        tol = 1e-5 if 1 - 1e-7 < x < 1 else 1e-7
        ctx.close("warp", got, want, tol * (1 + np.abs(want)))

    def _nodes(self, dims, n, style, which):
        shape = shape_of(dims, style)
        space = mp.space_for_shape(shape, n)
        if which == "equi":
            return shape, mp.equispaced_nodes_for_space(space, shape)
        x = mp.edge_clustered_nodes_for_space(space, shape)
        if which == "edge-permuted":
            x = np.asfortranarray(x[:, ::-1])
        if which == "squeezed":
            c = mp.unit_vertices_for_shape(shape).mean(axis=1, keepdims=True)
            x = c + 0.8 * (x - c)
        if which.startswith("skew"):
            v = mp.unit_vertices_for_shape(shape)[:, [int(which[4:])]]
            x = v + 0.9 * (x - v)
        return shape, x

    def obs_leb(self, ctx, shape, n, set):
        dims, style, _, dens = LEB[shape]
        s, x = self._nodes(dims, n, style, set)
        x0 = x.copy()
        got = mt.estimate_lebesgue_constant(n, x, s)
        ctx.close("unchanged", x, x0, 0)
        want = lebesgue(dims, n, x, dens * max(n, 1))
        ctx.true("type", isinstance(got, float))
        # a maximum over a subset of the closed shape
        ctx.true("not-above", got <= want * 1.03, f"{got} vs {want}")
        ctx.true("not-below", got >= want * (0.95 if n <= 10 else 0.9),
                 f"{got} vs {want}")
        ctx.true("at-least-one", got >= 1 - 1e-9, got)
        if n == 0:
            ctx.close("constant", got, 1.0, 1e-14)
        if n == 1 and set == "edge":
            ctx.close("linear", got, 1.0, 1e-9)

    def obs_bad(self, ctx, shape, delta):
        dims, style, *_ = LEB[shape]
        s = shape_of(dims, style)
        d = s.dim + delta
        x = np.zeros((d, 3))
        ctx.raises("dimension", ValueError,
                   lambda: mt.estimate_lebesgue_constant(1, x, s),
                   f"{d}-dimensional nodes for {shape}")
