"""C11: gradients and derivatives of every basis are the exact derivatives of its
functions."""
import numpy as np

from mc import ref, spaces
from mc.engine import GridModel

FAMS = ["generic", "vertices", "lattice2", "lattice4", "edges",
        "near1e-13", "near1e-11", "near1e-6", "sidenear1e-13", "sidenear1e-11",
        "all-near", "all-sidenear"]

AXES = {"axis-front": (1, 6), "axis-back": (6, 1), "axes4": (1, 3, 2, 1)}


class MODEL(GridModel):
    id = "C11"
    bounds = ("orthonormal, default and monomial bases; every P^n on simplices of dim "
              "1..3 (monomial: 1..5) up to the order below; every supported product of "
              "2..3 factors with all mixed orders; all axes, gradients and derivatives; "
              "%d point families incl. all vertices and their neighbourhoods"
              % len(FAMS))
    assumptions = ["a polynomial is determined by its values at the nodes of a rule "
                   "exact on the space"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {1: 16 if q else 40, 2: 8 if q else 16, 3: 6 if q else 9},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 6],
             3: [0, 1, 2] if q else [0, 1, 2, 3]},
            max_dim=4 if q else 5, max_size=160 if q else 500)
        # a few spaces of larger order
        self.fl += [((1, 25),), ((1, 40),), ((2, 11),), ((2, 14),), ((3, 8),), ((1, 12), (1, 9)), ((1, 16), (1, 1)), ((2, 6), (1, 5))]
        mono = {1: 8, 2: 8, 3: 6, 4: 4, 5: 3}
        self.ml = spaces.factor_lists(
            mono, {2: [0, 1, 2, 3, 4], 3: [0, 1, 2]}, max_dim=4, max_size=150)
        yield "grad", {"f": list(range(len(self.fl))), "kind": ["onb", "default"],
                       "style": ["tp", "nested", "cube"]}
        yield "mono", {"f": list(range(len(self.ml))), "kind": ["monomial", "default"]}
        yield "layout", {"f": list(range(0, len(self.fl), 2 if q else 1)),
                         "kind": ["onb", "monomial"],
                         "layout": ["F", "strided", "multi", "one", "empty", "readonly",
                                    "point", "corners", "axis-front", "axis-back",
                                    "axes4", "large"]}

    def valid(self, name, cfg):
        if name == "grad":
            return cfg["style"] in spaces.styles(self.fl[cfg["f"]]) and \
                not (cfg["kind"] == "default" and cfg["style"] == "nested")
        if name == "mono":
            return cfg["kind"] == "monomial" or all(
                d > 3 for d, _ in self.ml[cfg["f"]])
        return True

    def describe(self, state):
        name, cfg = self.config(state)
        fl = self.ml if name == "mono" else self.fl
        return {"grid": name, **cfg, "f": [list(x) for x in fl[cfg["f"]]]}

    def obs_grad(self, ctx, f, kind, style):
        self._decide(ctx, self.fl[f], spaces.basis_of(kind, self.fl[f], style))

    def obs_mono(self, ctx, f, kind):
        self._decide(ctx, self.ml[f], spaces.basis_of(kind, self.ml[f]))

    def _decide(self, ctx, factors, basis):
        dims = [d for d, _ in factors]
        D = sum(dims)
        n = ref.space_dim(factors)
        fns, grads = basis.functions, basis.gradients
        ders = [basis.derivatives(k) for k in range(D)]
        ctx.eq("count", (len(fns), len(grads), [len(d) for d in ders]),
               (n, n, [n] * D))
        C, _, _ = spaces.coefficients(fns, factors)
        # axes count from either end; axes the space does not have are refused
        p = spaces.points(dims, "generic")
        for k in range(D):
            for i in sorted({0, n // 2, n - 1}):
                a = np.broadcast_to(basis.derivatives(k - D)[i](p), p.shape[1:])
                b = np.broadcast_to(ders[k][i](p), p.shape[1:])
                ctx.close("negative-axis", a, b, 1e-13 * (1 + np.abs(b).max()))
        for k in (D, D + 1, -D - 1):
            ctx.raises("axis", IndexError,
                       lambda: [h(p) for h in basis.derivatives(k)], f"axis {k}")
        for fam in FAMS:
            if fam == "lattice4" and D > 2:
                continue
            p = spaces.points(dims, fam)
            p0 = p.copy()
            want = np.einsum("fm,dmp->dfp", C, ref.tp_grad(factors, p))
            deg = max(N for _, N in factors)
            tol = 1e-7 if fam.endswith(("1e-11", "1e-13")) else 1e-9
            tol = tol * (1 + deg) * (1 + np.abs(want).max())
            tup = [g(p) for g in grads]
            ctx.true("tuples", all(isinstance(t, tuple) and len(t) == D for t in tup))
            got = np.array([[np.broadcast_to(t[k], p.shape[1:]) for t in tup]
                            for k in range(D)])
            ctx.close(f"gradient-{fam}", got, want, tol)
            dgot = np.array([[np.broadcast_to(h(p), p.shape[1:]) for h in dk]
                             for dk in ders])
            ctx.close(f"derivative-{fam}", dgot, want, tol)
            ctx.close("input-unchanged", p, p0, 0)

    def obs_layout(self, ctx, f, kind, layout):
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        D = sum(dims)
        b = spaces.basis_of(kind, factors)
        p = spaces.points(dims, "generic")[:, :6].copy()
        n = len(b.functions)
        for i in sorted({0, 1 % n, n // 2, n - 1}):
            w = np.array(b.gradients[i](p))
            tol = 1e-12 * (1 + np.abs(w).max())
            x = p
            if layout == "F":
                x = np.asfortranarray(p)
            elif layout == "strided":
                big = np.zeros((D, 12))
                big[:, ::2] = p
                x = big[:, ::2]
            elif layout == "multi":
                x, w = p.reshape(D, 2, 3), w.reshape(D, 2, 3)
            elif layout == "one":
                x, w = p[:, 3:4], w[:, 3:4]
            elif layout == "point":
                x, w = p[:, 3].copy(), w[:, 3]
            elif layout == "corners":
                v = spaces.points(dims, "vertices")
                g = [np.broadcast_to(c, v.shape[1:]) for c in b.gradients[i](v)]
                for k in range(v.shape[1]):
                    one = b.gradients[i](v[:, k].copy())
                    for ax in range(D):
                        t = 1e-8 * (1 + np.abs(g[ax]).max())
                        ctx.close("corner", one[ax], g[ax][k], t)
                continue
            elif layout in AXES:
                x, w = p.reshape(D, *AXES[layout]), w.reshape(D, *AXES[layout])
            elif layout == "large":
                for size in (100, 1000, 1024, 4096, 8192, 16384, 20000):
                    idx = np.resize(np.arange(6), size)
                    x, w2 = p[:, idx], w[:, idx]
                    got = b.gradients[i](x)
                    for k in range(D):
                        ctx.close(f"large-{size}", np.broadcast_to(got[k], (size,)),
                                  w2[k], tol)
                        ctx.close(f"large-{size}", np.broadcast_to(
                            b.derivatives(k)[i](x), (size,)), w2[k], tol)
                continue
            elif layout == "empty":
                x, w = p[:, :0], w[:, :0]
            elif layout == "readonly":
                x = p.copy()
                x.flags.writeable = False
            got = b.gradients[i](x)
            ctx.eq("len", len(got), D)
            for k in range(D):
                ctx.close("gradient", got[k], w[k], tol)
                ctx.close("derivative", b.derivatives(k)[i](x), w[k], tol)
