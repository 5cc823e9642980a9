"""C18: differentiation matrices."""
import itertools

import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.checks.c17 import node_set
from mc.engine import GridModel

TO = ["same", "none", "eq", "ec", "gauss", "finer", "single", "vertices", "perm"]


class MODEL(GridModel):
    id = "C18"
    bounds = ("every P^n on simplices of dim 1..3 and every supported product below; "
              "4 unisolvent source node sets x %d target sets x orthonormal/monomial "
              "basis x both entry points; the axis permutation for every symmetric node "
              "tuple set and every axis, default and permuted tuple orders" % len(TO))
    assumptions = ["a linear operator on P is decided by its values on a basis of P"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {1: 10 if q else 16, 2: 6 if q else 9, 3: 4 if q else 6},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4],
             3: [0, 1] if q else [0, 1, 2]},
            max_dim=4, max_size=120 if q else 200)
        # a few spaces of larger order
        self.fl += [((1, 15),), ((1, 24),), ((2, 10),), ((3, 6),), ((1, 8), (1, 7)), ((2, 4), (1, 5))]
        yield "diff", {"f": list(range(len(self.fl))),
                       "src": ["eq", "ec", "gauss", "perm"], "to": TO,
                       "kind": ["onb", "monomial"], "api": ["basis", "functions"]}
        self.pl = [((d, n),) for d, m in ((1, 6), (2, 6), (3, 5)) for n in range(m)] \
            + [((1, n),) * k for k, m in ((2, 6), (3, 4), (4, 3)) for n in range(m)]
        yield "perm", {"f": list(range(len(self.pl))), "axis": [0, 1, 2, 3],
                       "order": ["default", "reversed", "rotated", "sorted"],
                       "nodes": ["eq", "ec"]}
        yield "bad", {"f": list(range(len(self.fl))), "extra": [-1, 1]}

    def describe(self, state):
        name, cfg = self.config(state)
        fl = self.pl if name == "perm" else self.fl
        return {"grid": name, **cfg, "f": [list(x) for x in fl[cfg["f"]]]}

    def valid(self, name, cfg):
        if name == "perm":
            return cfg["axis"] < sum(d for d, _ in self.pl[cfg["f"]])
        if name == "diff":
            return not (self.tier == "quick" and cfg["api"] == "functions"
                        and cfg["kind"] == "monomial")
        return True

    def obs_diff(self, ctx, f, src, to, kind, api):
        factors = self.fl[f]
        D = sum(d for d, _ in factors)
        b = spaces.basis_of(kind, factors)
        xs = node_set(factors, src)
        n = len(b.functions)
        if xs.shape[1] != n:
            if src != "gauss":
                ctx.fail("count", "unexpected node count")
            return
        Vs = ref.tp_basis(factors, xs).T
        c = ref.cond(Vs)
        if kind == "monomial":
            c = max(c, ref.cond(np.array([g(xs) for g in b.functions]).T))
        if not c < 1e9:
            return
        xt = xs if to in ("same", "none") else node_set(factors, to)
        a = (b,) if api == "basis" else (b.functions, b.gradients)
        fn = mp.diff_matrices if api == "basis" else mp.differentiation_matrices
        if to == "none":
            mats = fn(*a, xs)
        elif to == "same":
            mats = fn(*a, xs, from_nodes=xs)
        else:
            mats = fn(*a, xt, xs)
        want = ref.tp_grad(factors, xt)
        ctx.true("tuple", isinstance(mats, tuple) and len(mats) == D)
        for k in range(D):
            ctx.eq("shape", mats[k].shape, (xt.shape[1], n))
            W = want[k].T
            ctx.close(f"d{k}", mats[k] @ Vs, W,
                      1e-12 * (c + 10) * n * (1 + np.abs(W).max()))
        if n > 1:
            ctx.close("constants", mats[0] @ np.ones(n), np.zeros(xt.shape[1]),
                      1e-12 * (c + 10) * n * (1 + np.abs(mats[0]).max()))

    def obs_perm(self, ctx, f, axis, order, nodes):
        factors = self.pl[f]
        space, shape = spaces.build(factors)
        t = list(mp.node_tuples_for_space(space))
        n = len(t)
        idx = {"default": list(range(n)), "reversed": list(range(n))[::-1],
               "rotated": list(range(n))[1:] + [0] if n > 1 else [0],
               "sorted": sorted(range(n), key=lambda i: t[i])}[order]
        tt = [t[i] for i in idx]
        p = mp.diff_matrix_permutation(tt, axis)
        ctx.eq("permutation", sorted(int(i) for i in p), list(range(n)))
        if sorted(int(i) for i in p) != list(range(n)):
            return
        for i in range(n):
            s = list(tt[i])
            s[0], s[axis] = s[axis], s[0]
            ctx.eq("swap", tt[p[i]], tuple(s))
        x = node_set(factors, nodes)[:, idx]
        D = mp.diff_matrices(spaces.basis_of("onb", factors), x)
        ctx.close("relation", D[0][p][:, p], D[axis], 1e-9 * (1 + np.abs(D[0]).max()))

    def obs_bad(self, ctx, f, extra):
        factors = self.fl[f]
        b = spaces.basis_of("onb", factors)
        x = node_set(factors, "eq")
        y = x[:, :-1] if extra < 0 else np.concatenate([x, x[:, :1]], axis=1)
        ctx.raises("not-unisolvent", ValueError, lambda: mp.diff_matrices(b, y))
        ctx.raises("not-unisolvent", ValueError, lambda: mp.diff_matrices(b, x, y))
