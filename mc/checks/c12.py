"""C12: mode identifiers: what they index, and the bases they describe."""
import itertools

import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.engine import GridModel


def expected_ids(factors):
    """Multi-indices of a product basis, first factor varying fastest, from the base
    mode ids reported by the single-factor bases."""
    per = [[spaces.flat(m) for m in spaces.basis_of("onb" if d <= 3 else "monomial",
                                                    ((d, n),)).mode_ids]
           for d, n in factors]
    return [sum(t[::-1], ()) for t in itertools.product(*per[::-1])]


class Hats(mp.Basis):
    """Three quadratics on [-1, 1], with names for identifiers."""

    def orthonormality_weight(self):
        return 2.5

    mode_ids = ("left", "mid", "right")
    functions = (lambda x: x[0] * (x[0] - 1) / 2, lambda x: (1 - x[0]) * (1 + x[0]),
                 lambda x: x[0] * (x[0] + 1) / 2)
    gradients = (lambda x: (x[0] - 0.5,), lambda x: (-2 * x[0],), lambda x: (x[0] + 0.5,))


class Numbered(Hats):
    """identifiers that are bare integers, not tuples"""
    mode_ids = (7, 3, 5)

    def orthonormality_weight(self):
        return 0.25


class Half(Hats):
    """one-element tuples holding something else than an integer"""
    mode_ids = (("l",), ("m",), ("r",))

    def orthonormality_weight(self):
        return 3


class Wave(mp.Basis):
    """Two functions of two variables, derivatives(axis) inherited"""

    def orthonormality_weight(self):
        return -1.5

    mode_ids = ((1, 0), "w")
    functions = (lambda x: np.sin(x[0] + 2 * x[1]), lambda x: x[0] * x[1] ** 2)
    gradients = (lambda x: (np.cos(x[0] + 2 * x[1]), 2 * np.cos(x[0] + 2 * x[1])),
                 lambda x: (x[1] ** 2, 2 * x[0] * x[1]))


PARTS = [(1, Hats), (1, Numbered), (1, Half), (2, Wave),
         (1, lambda: spaces.basis_of("onb", ((1, 2),))),
         (2, lambda: spaces.basis_of("onb", ((2, 1),))),
         (1, lambda: spaces.basis_of("monomial", ((1, 1),)))]


class MODEL(GridModel):
    id = "C12"
    bounds = ("every P^n on simplices of dim 0..5, every supported product of 2..3 (quick) "
              "/ 2..4 (thorough) factors with all mixed orders, QN in dims 0..4; "
              "monomial, orthonormal, default bases; products of bases of unrelated "
              "kinds built by hand; products of 1..3 of %d bases including ones "
              "written by the user (names, numbers, odd tuples as identifiers, weights other "
              "than 1), flat and nested" % len(PARTS))
    assumptions = []

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {0: 2, 1: 12, 2: 8, 3: 6, 4: 4, 5: 2},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5],
             3: [0, 1, 2] if q else [0, 1, 2, 3], 4: [0, 1, 2]},
            max_factors=3 if q else 4, zero=True, max_dim=5, max_size=250)
        # a few spaces of larger order
        self.fl += [((1, 20),), ((1, 40),), ((2, 12),), ((3, 9),), ((1, 12), (1, 9)), ((2, 6), (1, 8))]
        yield "ids", {"f": list(range(len(self.fl))),
                      "kind": ["onb", "monomial", "default"],
                      "style": ["tp", "nested", "cube"]}
        yield "values", {"f": list(range(len(self.fl)))}
        yield "degree", {"f": list(range(len(self.fl)))}
        yield "mixed", {"k0": [0, 1, 2], "k1": [0, 1, 2], "n0": [0, 1, 3],
                        "n1": [0, 2], "d0": [1, 2, 3], "d1": [1, 2]}
        # bases written by the user, with identifiers and weights of their own
        yield "custom", {"parts": [t for k in (1, 2, 3) for t in
                                   itertools.product(range(len(PARTS)), repeat=k)],
                         "how": ["flat", "nest-left", "nest-right"]}
        # one-dimensional bases: the dimensions need not be given
        yield "lines", {"kinds": [t for k in range(1, 4) for t in
                                  itertools.product(["onb", "monomial"], repeat=k)],
                        "ns": [0, 1, 2, 3], "how": ["implied", "given", "list"]}

    def valid(self, name, cfg):
        if name == "custom":
            return len(cfg["parts"]) == 3 or cfg["how"] == "flat"
        if name in ("mixed", "lines"):
            return True
        f = self.fl[cfg["f"]]
        if name == "ids":
            if cfg["style"] not in spaces.styles(f):
                return False
            return cfg["kind"] != "onb" or all(d <= 3 for d, _ in f)
        if name == "degree":
            return all(d <= 3 for d, _ in f)
        return True

    def describe(self, state):
        name, cfg = self.config(state)
        if name in ("mixed", "lines", "custom"):
            return {"grid": name, **cfg}
        return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}

    def obs_ids(self, ctx, f, kind, style):
        factors = self.fl[f]
        b = spaces.basis_of(kind, factors, style)
        space, _ = spaces.build(factors, style)
        n = ref.space_dim(factors)
        ids = list(b.mode_ids)
        ctx.eq("count", (len(ids), len(b.functions), space.space_dim), (n, n, n))
        ctx.eq("distinct", len(set(ids)), n)
        ctx.eq("stable", list(b.mode_ids), ids)
        fl = [spaces.flat(m) for m in ids]
        want = {t for t in ref.tp_ids(factors)}
        ctx.eq("set", set(fl), want)
        ctx.eq("order", fl, expected_ids(factors))
        D = sum(d for d, _ in factors)
        ctx.eq("spatial", space.spatial_dim, D)
        if all(d == 1 for d, _ in factors) or len(factors) == 1:
            ctx.true("flat-tuples", all(isinstance(m, tuple) and len(m) == D for m in ids))
        if kind == "monomial":
            ctx.raises("weight", mp.BasisNotOrthonormal, b.orthonormality_weight)
        elif all(d <= 3 for d, _ in factors):
            ctx.eq("weight", b.orthonormality_weight(), 1)

    def obs_values(self, ctx, f):
        """a monomial function is the monomial its id names"""
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        b = spaces.basis_of("monomial", factors)
        for fam in ("generic", "vertices", "lattice2"):
            p = spaces.points(dims, fam)
            for m, g in zip(b.mode_ids, b.functions, strict=True):
                t = spaces.flat(m)
                want = np.ones(p.shape[1])
                for k, e in enumerate(t):
                    want = want * p[k] ** e
                ctx.close(fam, np.broadcast_to(g(p), want.shape), want, 1e-13)

    def obs_degree(self, ctx, f):
        """An orthonormal mode has exactly the degree its id states, factor by factor,
        and is orthogonal to everything of lower degree."""
        factors = self.fl[f]
        b = spaces.basis_of("onb", factors)
        C, _, _ = spaces.coefficients(b.functions, factors)
        rids = ref.tp_ids(factors)

        def degs(t):
            out, o = [], 0
            for d, _ in factors:
                out.append(sum(t[o:o + d]))
                o += d
            return tuple(out)
        rd = [degs(t) for t in rids]
        for i, m in enumerate(b.mode_ids):
            md = degs(spaces.flat(m))
            off = np.array([C[i, j] for j in range(len(rids)) if rd[j] != md])
            ctx.close("degree", off, np.zeros(len(off)), 1e-9)

    def obs_mixed(self, ctx, k0, k1, n0, n1, d0, d1):
        kinds = ["onb", "monomial", "default"]
        b0 = spaces.basis_of(kinds[k0], ((d0, n0),))
        b1 = spaces.basis_of(kinds[k1], ((d1, n1),))
        tp = mp.TensorProductBasis([b0, b1], dims_per_basis=(d0, d1))
        ctx.eq("bases", tuple(tp.bases), (b0, b1))
        n = len(b0.functions) * len(b1.functions)
        ctx.eq("count", (len(tp.functions), len(tp.mode_ids), len(tp.gradients)),
               (n, n, n))
        p = ref.generic_points((d0, d1), 5)
        fl = [spaces.flat(m) for m in tp.mode_ids]
        i0 = {spaces.flat(m): i for i, m in enumerate(b0.mode_ids)}
        i1 = {spaces.flat(m): i for i, m in enumerate(b1.mode_ids)}
        for t, g, gr in zip(fl, tp.functions, tp.gradients, strict=True):
            a, b = i0[t[:d0]], i1[t[d0:]]
            va, vb = b0.functions[a](p[:d0]), b1.functions[b](p[d0:])
            ctx.close("value", g(p), va * vb, 1e-12 * (1 + np.abs(va * vb)))
            ga, gb = b0.gradients[a](p[:d0]), b1.gradients[b](p[d0:])
            want = np.array([x * vb for x in ga] + [va * x for x in gb])
            ctx.close("gradient", np.array(gr(p)), want, 1e-12 * (1 + np.abs(want)))
        if 1 in (k0, k1):
            ctx.raises("weight", mp.BasisNotOrthonormal, tp.orthonormality_weight)
        else:
            ctx.eq("weight", tp.orthonormality_weight(), 1)

    def obs_custom(self, ctx, parts, how):
        made = [(d, make()) for d, make in (PARTS[i] for i in parts)]
        dims = [d for d, _ in made]

        def prod(items):
            return (sum(d for d, _ in items), mp.TensorProductBasis(
                [b for _, b in items], dims_per_basis=tuple(d for d, _ in items)))
        if how == "nest-left":
            tree = prod([prod(made[:2]), made[2]])[1]
        elif how == "nest-right":
            tree = prod([made[0], prod(made[1:])])[1]
        else:
            tree = prod(made)[1]
        bs = [b for _, b in made]
        n = [len(b.functions) for b in bs]
        idx = [t[::-1] for t in itertools.product(*[range(k) for k in n[::-1]])]
        ctx.eq("counts", (len(tree.functions), len(tree.gradients), len(tree.mode_ids)),
               (len(idx),) * 3)
        ctx.eq("distinct", len(set(tree.mode_ids)), len(idx))
        if how == "flat":
            def one(b, i):
                ids = b.mode_ids
                whole = all(isinstance(m, tuple) and len(m) == 1
                            and isinstance(m[0], int) for m in ids)
                return ids[i] if whole else (ids[i],)
            ctx.eq("ids", list(tree.mode_ids),
                   [sum((one(b, i) for b, i in zip(bs, t)), ()) for t in idx])
        weights = []
        for b in bs:
            try:
                weights.append(b.orthonormality_weight())
            except mp.BasisNotOrthonormal:
                weights = None
                break
        if weights is None:
            ctx.raises("weight", mp.BasisNotOrthonormal, tree.orthonormality_weight)
        else:
            ctx.close("weight", tree.orthonormality_weight(), np.prod(weights), 1e-14)
        D = sum(dims)
        off = np.cumsum([0, *dims])
        p = ref.generic_points(tuple(dims), 4)
        vals = [[f(p[o:o + d]) for f in b.functions] for b, o, d in zip(bs, off, dims)]
        ders = [[f(p[o:o + d]) for f in b.gradients] for b, o, d in zip(bs, off, dims)]
        owner = [(k, a) for k, d in enumerate(dims) for a in range(d)]
        by_axis = [tree.derivatives(a) for a in range(D)]
        for j, t in enumerate(idx):
            v = [vals[k][i] for k, i in enumerate(t)]
            want = np.prod(v, axis=0)
            ctx.close("value", tree.functions[j](p), want, 1e-12 * (1 + np.abs(want)))
            gr = tree.gradients[j](p)
            for a, (k, c) in enumerate(owner):
                w = np.prod([ders[k][t[k]][c], *v[:k], *v[k + 1:]], axis=0)
                tol = 1e-12 * (1 + np.abs(w))
                ctx.close("gradient", np.broadcast_to(gr[a], w.shape), w, tol)
                ctx.close("derivative", np.broadcast_to(by_axis[a][j](p), w.shape), w, tol)

    def obs_lines(self, ctx, kinds, ns, how):
        k = len(kinds)
        bases = [spaces.basis_of(kd, ((1, (ns + i) % 4),)) for i, kd in enumerate(kinds)]
        args = {"implied": (bases,), "given": (tuple(bases), (1,) * k),
                "list": (bases, [1] * k)}[how]
        tp = mp.TensorProductBasis(*args)
        p = ref.generic_points((1,) * k, 5)
        vals = [[g(p[i:i + 1]) for g in b.functions] for i, b in enumerate(bases)]
        ders = [[g(p[i:i + 1])[0] for g in b.gradients] for i, b in enumerate(bases)]
        want_ids = expected_ids([(1, (ns + i) % 4) for i in range(k)])
        ctx.eq("ids", list(tp.mode_ids), want_ids)
        for m, g, gr in zip(want_ids, tp.functions, tp.gradients, strict=True):
            ctx.close("value", g(p), np.prod([vals[i][m[i]] for i in range(k)], axis=0),
                      1e-12)
            for a in range(k):
                w = np.prod([(ders if i == a else vals)[i][m[i]] for i in range(k)],
                            axis=0)
                ctx.close("gradient", np.broadcast_to(gr(p)[a], w.shape), w, 1e-11)
        for a in range(k):
            for m, g in zip(want_ids, tp.derivatives(a), strict=True):
                w = np.prod([(ders if i == a else vals)[i][m[i]] for i in range(k)],
                            axis=0)
                ctx.close("derivative", np.broadcast_to(g(p), w.shape), w, 1e-11)
