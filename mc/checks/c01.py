"""C01: simplex quadrature rules integrate every polynomial of the declared degree."""
import itertools

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel


def rule_tol(w, V):
    return 1e-12 + 200 * ref.EPS * (np.abs(w) * np.abs(V)).sum(axis=1)


def check_exact(ctx, label, quad, factors):
    """quad integrates the whole product space *factors* exactly (by linearity the
    orthonormal reference basis decides this for all functions of the space)."""
    dims = [d for d, _ in factors]
    V = ref.tp_basis(factors, np.asarray(quad.nodes, dtype=float))
    want = np.zeros(V.shape[0])
    want[0] = float(ref.volume(dims)) ** 0.5
    # through the public call interface
    got = quad(lambda x: ref.tp_basis(factors, x))
    return ctx.close(label, got, want, rule_tol(quad.weights, V))


def bary(x):
    lam = (1 + x) / 2
    return np.vstack([1 - lam.sum(axis=0), lam])


def check_symmetric(ctx, label, nodes, weights, tol=1e-9):
    """The weighted node set is invariant under every affine symmetry of the simplex."""
    lam = bary(nodes)
    d = lam.shape[0] - 1
    for p in itertools.permutations(range(d + 1)):
        q = lam[list(p)]
        dist = np.abs(lam[:, :, None] - q[:, None, :]).max(axis=0)
        m = dist.argmin(axis=0)
        ctx.true(label, dist.min(axis=0).max() < tol and len(set(m)) == len(m),
                 f"node set is not invariant under barycentric permutation {p}")
        ctx.close(label + "-weights", weights[m], weights, tol)


AVAILABLE = {
    ("XG", 2): range(1, 51), ("XG", 3): range(1, 16),
    ("VR", 2): range(21), ("VR", 3): range(11),
    ("JS", 3): range(20),
}
CLS = {"XG": "XiaoGimbutasSimplexQuadrature", "VR": "VioreanuRokhlinSimplexQuadrature",
       "JS": "JaskowiecSukumarQuadrature"}


class MODEL(GridModel):
    id = "C01"
    bounds = ("every tabulated rule (XG tri 1..50, tet 1..15; VR tri 0..20, tet 0..10; "
              "JS tet 0..19), every request (order -2..60) x (dim 0..4) for availability, "
              "Grundmann-Moeller dims 0..4 up to the order below; per rule the complete "
              "orthonormal basis of P^exact_to")
    assumptions = ["integration is linear, so exactness on a basis of P^N is exactness "
                   "on P^N", "the reference basis is validated against exact rationals "
                   "by setup_cmd"]

    def grids(self, tier):
        yield "table", {"kind": ["XG", "VR", "JS"], "dim": [0, 1, 2, 3, 4],
                        "order": list(range(-2, 61))}
        yield "gm", {"dim": [0, 1, 2, 3, 4] + ([5] if tier == "thorough" else []),
                     "s": list(range(0, 17 if tier == "thorough" else 13))}

    def valid(self, name, cfg):
        if name == "gm":
            lim = {0: 16, 1: 16, 2: 16, 3: 12, 4: 8, 5: 5}
            if self.tier == "quick":
                lim = {0: 8, 1: 12, 2: 12, 3: 8, 4: 5}
            return cfg["s"] <= lim[cfg["dim"]]
        return True

    def obs_table(self, ctx, kind, dim, order):
        cls = getattr(mp, CLS[kind])
        if order not in AVAILABLE.get((kind, dim), ()):
            ctx.raises("unavailable", mp.QuadratureRuleUnavailable,
                       lambda: cls(order, dim), f"{kind} order {order} dim {dim}")
            ctx.note("unavailable")
            return
        q = cls(order, dim)
        n = len(q.weights)
        ctx.true("isinstance", isinstance(q, mp.Quadrature))
        ctx.eq("nodes-shape", q.nodes.shape, (dim, n))
        ctx.eq("weights-shape", q.weights.shape, (n,))
        ctx.eq("dim", q.dim, dim)
        if kind == "XG":
            ctx.eq("exact_to", q.exact_to, order)
        else:
            ctx.true("exact_to", order <= q.exact_to <= 3 * order + 3,
                     f"exact_to={q.exact_to} for order {order}")
        ctx.true("inside", ref.inside((dim,), q.nodes).all(), "node outside the simplex")
        check_exact(ctx, "exactness", q, [(dim, q.exact_to)])
        if kind in ("VR", "JS"):
            ctx.true("positive-weights", (q.weights > 0).all())
            check_symmetric(ctx, "symmetry", q.nodes, q.weights)
        if kind == "VR":
            # order = degree of interpolation: unisolvent for P^order
            V = ref.pkdo(dim, order, q.nodes)
            ctx.eq("node-count", V.shape[0], V.shape[1])
            ctx.true("unisolvent", ref.cond(V) < 1e4, f"condition {ref.cond(V)}")
        ctx.note((kind, dim, n, int(q.exact_to)))

    def obs_gm(self, ctx, dim, s):
        q = mp.GrundmannMoellerSimplexQuadrature(s, dim)
        n = len(q.weights)
        ctx.eq("nodes-shape", q.nodes.shape, (dim, n))
        ctx.eq("weights-shape", q.weights.shape, (n,))
        if dim == 0:
            ctx.close("point", q.weights, np.ones(1), 0)
            ctx.true("exact", q.exact_to >= 10**9)
            ctx.close("call", q(lambda x: np.full(x.shape[1], 3.5)), 3.5, 0)
            return
        ctx.eq("exact_to", q.exact_to, 2 * s + 1)
        ctx.true("inside", ref.inside((dim,), q.nodes).all(), "node outside the simplex")
        check_exact(ctx, "exactness", q, [(dim, 2 * s + 1)])
        check_symmetric(ctx, "symmetry", q.nodes, q.weights,
                        1e-9 * max(1, np.abs(q.weights).max()))
        ctx.note((dim, n))
