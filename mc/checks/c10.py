"""C10: orthonormal bases: orthonormal, complete, and valid at every point."""
import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.engine import GridModel

LAYOUTS = ["C", "F", "strided", "multi", "empty", "one", "f32", "int", "readonly",
           "point", "points-at-corners", "axis-front", "axis-back", "axes4", "large"]

AXES = {"axis-front": (1, 6), "axis-back": (6, 1), "axes4": (1, 3, 2, 1)}


class MODEL(GridModel):
    id = "C10"
    bounds = ("every P^n on simplices dim 0..3 up to the order below, every supported "
              "product of 2..3 factors of dim 0..3 with all mixed orders, every "
              "hypercube dim 0/2/3/4; constructed through each retrieval function and "
              "shape nesting; evaluated at %d point families including all vertices, "
              "edges and 1e-13..1e-3 neighbourhoods of vertices, edges, faces; %d array layouts"
              % (len(spaces.FAMILIES), len(LAYOUTS)))
    assumptions = ["Gram matrices are computed with a reference rule exact on the "
                   "product space (validated by setup_cmd)"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {0: 3, 1: 20 if q else 50, 2: 10 if q else 20, 3: 7 if q else 11},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 6],
             3: [0, 1, 2] if q else [0, 1, 2, 3]},
            zero=True, max_dim=4 if q else 5, max_size=200 if q else 700)
        # a few spaces of larger order
        self.fl += [((1, 33),), ((1, 50),), ((2, 13),), ((2, 16),), ((3, 9),), ((1, 12), (1, 9)), ((1, 21), (1, 1)), ((2, 7), (1, 5))]
        self.cubes = [((1, n),) * d for d in (0, 2, 3, 4)
                      for n in range({0: 3, 2: 8, 3: 4, 4: 2}[d] + (0 if q else 2))]
        yield "onb", {"f": list(range(len(self.fl))), "style": ["tp", "nested", "cube"],
                      "how": ["onb", "default"]}
        yield "cube", {"f": list(range(len(self.cubes))), "how": ["onb", "default"]}
        yield "layout", {"f": list(range(0, len(self.fl), 3 if q else 1)),
                         "layout": LAYOUTS}

    def valid(self, name, cfg):
        if name == "onb":
            return cfg["style"] in spaces.styles(self.fl[cfg["f"]])
        return True

    def describe(self, state):
        name, cfg = self.config(state)
        fl = self.cubes if name == "cube" else self.fl
        return {"grid": name, **cfg, "f": [list(x) for x in fl[cfg["f"]]]}

    def obs_onb(self, ctx, f, style, how):
        factors = self.fl[f]
        self._decide(ctx, factors, spaces.basis_of(how, factors, style))

    def obs_cube(self, ctx, f, how):
        factors = self.cubes[f]
        d = len(factors)
        n = factors[0][1] if d else 2
        fn = {"onb": mp.orthonormal_basis_for_space, "default": mp.basis_for_space}[how]
        self._decide(ctx, factors, fn(mp.QN(d, n), mp.Hypercube(d)))

    def _decide(self, ctx, factors, basis):
        dims = [d for d, _ in factors]
        fns = basis.functions
        n = ref.space_dim(factors)
        ctx.eq("count", len(fns), n)
        ctx.eq("weight", basis.orthonormality_weight(), 1)
        if len(fns) != n:
            return
        C, V, R = spaces.coefficients(fns, factors)
        tol = 1e-10
        ctx.close("gram", C @ C.T, np.eye(n), tol, "inner products of the basis")
        x, w = spaces.rule_for(tuple(factors))
        ctx.close("gram-direct", (V * w) @ V.T, np.eye(n), tol)
        ctx.close("in-space", V, C @ R, 1e-9 * (1 + np.abs(V).max()),
                  "the function is not a member of the space")
        # in a basis of the space only these coefficients determine all values
        for fam in spaces.FAMILIES:
            if fam == "lattice3" and sum(dims) > 3:
                continue
            p = spaces.points(dims, fam)
            if not p.shape[1]:
                continue
            p0 = p.copy()
            got = np.array([g(p) for g in fns])
            want = C @ ref.tp_basis(factors, p)
            # next to a pole the coordinate transform is regularized (1e-10)
            tol = 1e-8 if fam.endswith(("1e-11", "1e-13")) else 1e-9
            ctx.close(f"values-{fam}", got, want, tol * (1 + np.abs(want).max()))
            ctx.close("input-unchanged", p, p0, 0)

    def obs_layout(self, ctx, f, layout):
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        D = sum(dims)
        fns = spaces.basis_of("onb", factors).functions
        p = spaces.points(dims, "generic")[:, :6].copy()
        want = np.array([np.broadcast_to(g(p), (6,)) for g in fns])
        idx = sorted({0, 1, len(fns) // 2, len(fns) - 1} & set(range(len(fns))))
        for i in idx:
            g = fns[i]
            w = want[i]
            tol = 1e-13 * (1 + np.abs(w).max())
            if layout == "F":
                got = g(np.asfortranarray(p))
            elif layout == "strided":
                big = np.zeros((D, 12))
                big[:, ::2] = p
                got = g(big[:, ::2])
            elif layout == "multi":
                got = g(p.reshape(D, 2, 3))
                w = w.reshape(2, 3)
            elif layout in AXES:
                sh = AXES[layout]
                got, w = g(p.reshape(D, *sh)), w.reshape(sh)
            elif layout == "large":
                # a batch of any size is evaluated point by point
                for size in (100, 128, 1000, 1024, 4096, 8192, 10000, 16384, 65536, 72000):
                    idx = np.resize(np.arange(6), size)
                    ctx.close(f"large-{size}", g(p[:, idx]), w[idx], tol)
                continue
            elif layout == "empty":
                got, w = g(p[:, :0]), w[:0]
            elif layout == "one":
                got, w = g(p[:, 2:3]), w[2:3]
            elif layout == "f32":
                p32 = p.astype(np.float32)
                got = g(p32)
                # the polynomial at the rounded points, then single precision
                w = g(p32.astype(np.float64))
                deg = sum(n for _, n in factors)
                tol = 3e-6 * (deg + 1) ** 4 * (1 + np.abs(w).max())
                ctx.eq("dtype", got.dtype, np.dtype(np.float32))
            elif layout == "int":
                v = spaces.points(dims, "vertices")
                w = g(v)
                tol = 1e-12 * (1 + np.abs(w).max())
                got = g(v.astype(int)) if D else g(v)
            elif layout == "point":
                got, w = g(p[:, 2].copy()), w[2]
            elif layout == "points-at-corners":
                # one at a time, with and without an axis for the points
                v = spaces.points(dims, "vertices")
                vals = np.broadcast_to(g(v), v.shape[1:])
                for k in range(v.shape[1]):
                    t = 1e-9 * (1 + np.abs(vals).max())
                    ctx.close("corner", g(v[:, k].copy()), vals[k], t)
                    ctx.close("corner-1", g(v[:, k:k + 1].copy()), vals[k:k + 1], t)
                continue
            elif layout == "readonly":
                r = p.copy()
                r.flags.writeable = False
                got = g(r)
            else:
                got = g(p)
            ctx.eq("shape", np.shape(got), np.shape(w))
            ctx.close(layout, got, w, tol)
