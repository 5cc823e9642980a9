"""C05: Gauss-Kronrod pairs."""
import numpy as np

from mc import ref
from mc.engine import GridModel


def check_leg(ctx, label, x, w, deg, tol):
    V = ref.jacobi_all(0, 0, deg, x)
    want = np.zeros(deg + 1)
    want[0] = 2**0.5
    ctx.close(label, V @ w, want, tol * (1 + np.abs(V) @ np.abs(w)))


class MODEL(GridModel):
    id = "C05"
    bounds = ("every order n = -2..NMAX (quick 40, thorough 160); the complete polynomial "
              "basis of degree 3n+1 for the pair and 2n-1 for the embedded rule; each "
              "order built first / after a neighbouring order / twice")

    def grids(self, tier):
        q = tier == "quick"
        yield "pair", {"n": [*range(-2, 41), 48, 50, 63, 64, 65, 80, 100] if q
                       else list(range(-2, 161)),
                       "history": ["fresh", "after-next", "twice"]}

    def obs_pair(self, ctx, n, history):
        from modepy.quadrature.kronrod import (
            KronrodQuadrature, gauss, kronrod, make_kronrod_quadrature)
        if n < 1:
            for f in (gauss, kronrod, make_kronrod_quadrature):
                ctx.raises("order", ValueError, lambda: f(n), f"{f.__name__}({n})")
            return
        if history == "after-next":
            make_kronrod_quadrature(n + 1)
        if history == "twice":
            q = make_kronrod_quadrature(n)
            for a in (q.nodes, q.weights, q.weights_at_gauss_nodes,
                      q.gauss_quadrature.nodes, q.gauss_quadrature.weights):
                try:
                    a[...] = 7.0
                except ValueError:
                    pass        # write protected: also fine
            for a in kronrod(n):
                try:
                    a[...] = 7.0
                except ValueError:
                    pass
        # gauss
        x, w = gauss(n)
        ctx.eq("gauss-shape", (x.shape, w.shape), ((n,), (n,)))
        ctx.true("gauss-inside", (np.abs(x) < 1).all())
        check_leg(ctx, "gauss-exact", x, w, 2 * n - 1, 1e-12 * n)
        # half rule
        xk, wk, gw = kronrod(n)
        ctx.eq("kronrod-shape", (xk.shape, wk.shape, gw.shape),
               ((n + 1,), (n + 1,), ((n + 1) // 2,)))
        ctx.true("zero-last", abs(xk[-1]) < 1e-13 and (xk[:-1] < 0).all(), f"{xk}")
        ctx.true("ascending", (np.diff(xk) > 0).all())
        full_x = np.concatenate([xk[:-1], [0.0], -xk[-2::-1]])
        full_w = np.concatenate([wk[:-1], [wk[-1]], wk[-2::-1]])
        check_leg(ctx, "kronrod-exact", full_x, full_w, 3 * n + 1, 1e-12 * n)
        # the pair
        q = make_kronrod_quadrature(n)
        g = q.gauss_quadrature
        ctx.true("type", isinstance(q, KronrodQuadrature))
        ctx.eq("exact_to", (q.exact_to, g.exact_to), (3 * n + 1, 2 * n - 1))
        ctx.eq("dim", (q.dim, g.dim), (1, 1))
        ctx.eq("shapes", (q.nodes.shape, q.weights.shape,
                          q.weights_at_gauss_nodes.shape, g.nodes.shape,
                          g.weights.shape), ((n + 1,), (n + 1,), (n,), (n,), (n,)))
        check_leg(ctx, "embedded-gauss-exact", g.nodes, g.weights, 2 * n - 1, 1e-12 * n)
        D = 3 * n + 1
        want = np.zeros(D + 1)
        want[0] = 2**0.5
        got = q(lambda y: ref.jacobi_all(0, 0, D, y))
        ctx.close("pair-exact", got, want, 1e-11 * n)
        ctx.close("pair-scalar", q(lambda y: y**2), 2 / 3, 1e-11 * n)
        ctx.close("pair-complex", q(lambda y: 1j * y**2 + y), 2j / 3, 1e-11 * n)
        ctx.close("embedded-call", g(lambda y: y**0), 2.0, 1e-11 * n)
        allx = np.sort(np.concatenate([q.nodes, g.nodes]))
        ctx.close("same-nodes", allx, np.sort(full_x), 1e-13)
        ctx.true("interlacing", all(
            (q.nodes[i] < g.nodes[i] < q.nodes[i + 1]) for i in range(n))
            if (np.diff(q.nodes) > 0).all() else False)
        ctx.true("positive", (q.weights > 0).all() and (g.weights > 0).all()
                 and (q.weights_at_gauss_nodes > 0).all())
        ctx.note((n, history))
