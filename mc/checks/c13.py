"""C13: symbolic expressions are the same functions as the callables."""
import numpy as np

import modepy as mp
from mc import spaces
from mc.engine import GridModel


def evaluate(expr, env):
    from pymbolic.mapper.evaluator import EvaluationMapper

    class Ev(EvaluationMapper):
        def __init__(self, ctx):
            super().__init__(ctx)
            self.cse_values = {}

        def map_common_subexpression(self, e):
            if id(e) not in self.cse_values:
                self.cse_values[id(e)] = self.rec(e.child)
            return self.cse_values[id(e)]

        map_common_subexpression_uncached = map_common_subexpression
    return Ev({"abs": abs, **env})(expr)


def eval_points(expr, name, p):
    """Point by point in Python floats, so that conditionals are decided per point."""
    out = []
    for j in range(p.shape[1]):
        v = evaluate(expr, {name: [float(x) for x in p[:, j]]})
        out.append(complex(v) if isinstance(v, complex) else float(np.asarray(v)[()]))
    return np.array(out)


class MODEL(GridModel):
    id = "C13"
    bounds = ("every mode of the orthonormal, default and monomial bases of every P^n "
              "(dims 1..3) and every supported product of 2..3 factors below; value, "
              "gradient and every directional derivative; evaluated point by point, "
              "incl. at every vertex; Jacobi polynomials for 25 parameter pairs; two "
              "variable names")
    assumptions = ["pymbolic's own evaluator is used to evaluate the expressions"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {1: 8 if q else 14, 2: 4 if q else 7, 3: 3 if q else 5},
            {2: [0, 1, 2] if q else [0, 1, 2, 3], 3: [0, 1] if q else [0, 1, 2]},
            max_dim=4, max_size=40 if q else 90)
        yield "basis", {"f": list(range(len(self.fl))), "kind": ["onb", "monomial"],
                        "name": ["r", "xi"]}
        yield "jac", {"a": [-0.5, 0, 1, 2.5, 4], "b": [-0.5, 0, 1, 3, 0.3],
                      "n": list(range(0, 9 if q else 21))}

    def describe(self, state):
        name, cfg = self.config(state)
        if name == "jac":
            return {"grid": name, **cfg}
        return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}

    def obs_basis(self, ctx, f, kind, name):
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        D = sum(dims)
        b = spaces.basis_of(kind, factors)
        p = np.concatenate([spaces.points(dims, "generic")[:, :3],
                            spaces.points(dims, "vertices"),
                            spaces.points(dims, "near1e-3")[:, :2]], axis=1)
        kw = {} if name == "r" else {"ref_coord_var_name": name}
        for i, g in enumerate(b.functions):
            e = mp.symbolicize_function(g, D, **kw)
            want = np.broadcast_to(g(p), p.shape[1:])
            ctx.close("value", eval_points(e, name, p), want,
                      1e-9 * (1 + np.abs(want).max()))
            gr = b.gradients[i]
            es = mp.symbolicize_function(gr, D, **kw)
            ctx.true("tuple", isinstance(es, tuple) and len(es) == D)
            gv = gr(p)
            for k in range(D):
                w = np.broadcast_to(gv[k], p.shape[1:])
                tol = 1e-9 * (1 + np.abs(w).max())
                ctx.close("gradient", eval_points(es[k], name, p), w, tol)
                if name == "r":
                    ed = mp.symbolicize_function(b.derivatives(k)[i], D)
                    ctx.close("derivative", eval_points(ed, name, p), w, tol)

    def obs_jac(self, ctx, a, b, n):
        x = np.linspace(-1, 1, 7)[None]
        for label, fn in (("jacobi", mp.jacobi), ("grad_jacobi", mp.grad_jacobi)):
            e = mp.symbolicize_function(lambda r: fn(a, b, n, r[0]), 1)
            w = fn(a, b, n, x[0])
            ctx.close(label, eval_points(e, "r", x), w, 1e-9 * (1 + np.abs(w).max()))
