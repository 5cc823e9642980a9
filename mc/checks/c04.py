"""C04: quadrature_for_space integrates every function of the space over the shape."""
import itertools

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel
from mc.checks.c01 import check_exact
from mc.shapes import shape_of, space_of, supported

MISMATCH = [("s", (0,)), ("s", (1,)), ("s", (2,)), ("s", (3,)), ("s", (4,)),
            ("c", ()), ("c", (1, 1)), ("c", (1, 1, 1)), ("t", ()), ("t", (2, 1)),
            ("t", (1, 2)), ("t", (0, 1)), ("t", (1, 1)), ("t", (1, 1, 2)), ("t", (3, 1)),
            ("t", (1, 0)), ("t", (1, 3)), ("t", (1, 2, 1))]


class MODEL(GridModel):
    id = "C04"
    bounds = ("PN on simplices dim 0..4 (orders 0..60 / 0..54 / 0..20 / 0..9); products "
              "of 0..3 factors with dims 0..3 and all mixed orders from the listed "
              "range; QN/Hypercube dims 0..4; every (space, shape) pair of %d kinds "
              "incl. mismatched ones" % len(MISMATCH))
    assumptions = ["linearity of integration"]

    def grids(self, tier):
        q = tier == "quick"
        yield "simplex", {"dim": [0, 1, 2, 3, 4],
                          "order": list(range(0, 61))}
        yield "cube", {"dim": [0, 1, 2, 3, 4], "order": list(range(0, 9 if q else 16)),
                       "how": ["QN", "space_for_shape"]}
        orders = [0, 1, 2, 3, 4] if q else [0, 1, 2, 3, 4, 5, 7]
        for k in range(1, 4):
            yield f"product{k}", (
                {f"d{i}": [0, 1, 2, 3] for i in range(k)}
                | {f"o{i}": orders if k < 3 else orders[:4] for i in range(k)}
                | {"style": ["tp", "nested", "auto"] if k > 1 else ["tp"]})
        yield "wide", {"d0": [1, 2], "o0": [12, 20, 51], "d1": [1, 2], "o1": [0, 1, 7]}
        yield "pair", {"space": list(range(len(MISMATCH))),
                       "shape": list(range(len(MISMATCH))), "order": [0, 1, 3]}

    def valid(self, name, cfg):
        if name == "simplex":
            lim = {0: 8, 1: 60, 2: 54, 3: 17 if self.tier == "quick" else 22,
                   4: 6 if self.tier == "quick" else 9}
            return cfg["order"] <= lim[cfg["dim"]]
        if name == "cube":
            return (cfg["order"] // 2 + 2) ** cfg["dim"] <= 5000 \
                and (cfg["order"] + 1) ** cfg["dim"] <= 1300
        if name.startswith("product"):
            ds = [cfg[k] for k in cfg if k[0] == "d"]
            return supported(ds) and sum(ds) <= (5 if self.tier == "quick" else 6)
        if name == "wide":
            return supported([cfg["d0"], cfg["d1"]])
        return True

    def obs_simplex(self, ctx, dim, order):
        q = mp.quadrature_for_space(mp.PN(dim, order), mp.Simplex(dim))
        self._decide(ctx, q, [(dim, order)])

    def _decide(self, ctx, q, factors):
        d = ref.factor_dim(factors)
        n = len(q.weights)
        ctx.true("isinstance", isinstance(q, mp.Quadrature))
        ctx.eq("shape", (q.nodes.shape, q.weights.shape), ((d, n), (n,)))
        ctx.true("inside", ref.inside([a for a, _ in factors], q.nodes).all(),
                 "node outside the shape")
        pos = [N for a, N in factors if a]
        if pos:
            ctx.true("exact_to", q.exact_to >= min(pos), f"{q.exact_to}")
        else:
            ctx.true("exact_to", q.exact_to >= 10**6)
        if d == 0:
            ctx.close("point-evaluation", q(lambda x: np.full(x.shape[1], 1.75)), 1.75, 0)
            return
        check_exact(ctx, "exactness", q, [f for f in factors if f[0]])
        ctx.note(n)

    def obs_cube(self, ctx, dim, order, how):
        shape = mp.Hypercube(dim)
        space = mp.QN(dim, order) if how == "QN" else mp.space_for_shape(shape, order)
        self._decide(ctx, mp.quadrature_for_space(space, shape), [(1, order)] * dim)

    def _product(self, ctx, style="tp", **kw):
        k = sum(1 for a in kw if a[0] == "d")
        dims = [kw[f"d{i}"] for i in range(k)]
        factors = [(kw[f"d{i}"], kw[f"o{i}"]) for i in range(k)]
        if style == "auto":
            shape = shape_of(dims)
            space = mp.space_for_shape(shape, tuple(n for _, n in factors))
        else:
            shape = shape_of(dims, style)
            space = space_of(factors, style)
        self._decide(ctx, mp.quadrature_for_space(space, shape), factors)

    obs_product1 = obs_product2 = obs_product3 = obs_wide = _product

    def obs_pair(self, ctx, space, shape, order):
        (ks, ds), (kh, dh) = MISMATCH[space], MISMATCH[shape]
        mk = {"s": "simplex", "c": "cube", "t": "tp"}
        sp = (mp.QN(len(ds), order) if ks == "c"
              else space_of([(d, order) for d in ds], mk[ks]))
        sh = shape_of(dh, mk[kh])
        prod_space = isinstance(sp, mp.TensorProductSpace)
        prod_shape = isinstance(sh, mp.TensorProductShape)
        if prod_space == prod_shape and tuple(ds) == tuple(dh):
            self._decide(ctx, mp.quadrature_for_space(sp, sh), [(d, order) for d in ds])
        elif prod_space == prod_shape and sum(ds) == sum(dh) == 0:
            q = mp.quadrature_for_space(sp, sh)
            ctx.close("0d", q.weights, np.ones(1), 0)
        else:
            want = (ValueError if prod_space == prod_shape and sum(ds) != sum(dh)
                    else (ValueError, NotImplementedError))
            ctx.raises("mismatch", want, lambda: mp.quadrature_for_space(sp, sh),
                       f"{sp!r} on {sh!r}")
