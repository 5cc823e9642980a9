"""C14: node tuples and interpolation node sets."""
import itertools

import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.engine import GridModel


def bary(dims, x):
    """Per factor barycentric coordinates, stacked."""
    out, o = [], 0
    for d in dims:
        lam = (1 + x[o:o + d]) / 2
        out.append(np.vstack([1 - lam.sum(axis=0), lam]))
        o += d
    return np.vstack(out) if out else np.zeros((0, x.shape[1]))


def tuple_bary(factors, tuples):
    cols = []
    for t in tuples:
        c, o = [], 0
        for d, n in factors:
            tt = t[o:o + d]
            o += d
            c += [(n - sum(tt)) / n if n else 1 / (d + 1)]
            c += [k / n if n else 1 / (d + 1) for k in tt]
        cols.append(c)
    return np.array(cols, dtype=float).T


class MODEL(GridModel):
    id = "C14"
    bounds = ("every P^n on simplices of dim 0..3 (equispaced: 0..5) up to the order "
              "below, every supported product of 2..3 factors with all mixed orders; "
              "QN/Hypercube dims 0..4; every permutation of the node tuples for sets of "
              "up to 6 (thorough: 7) nodes, every transposition and rotation for larger "
              "ones; wrong tuple counts and shape/space mismatches")
    assumptions = ["unisolvence: smallest singular value of the reference Vandermonde "
                   "matrix relative to the largest"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {0: 3, 1: 24 if q else 40, 2: 18 if q else 22, 3: 9 if q else 17},
            {2: [0, 1, 2, 3, 4, 5], 3: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4]},
            zero=True, max_dim=4 if q else 5, max_size=350 if q else 1200)
        self.cubes = [((1, n),) * d for d in (0, 2, 3, 4) for n in range(5)]
        yield "space", {"f": list(range(len(self.fl))), "style": ["tp", "nested", "cube"]}
        yield "cube", {"f": list(range(len(self.cubes)))}
        yield "direct", {"dim": [0, 1, 2, 3, 4, 5], "n": list(range(0, 17 if q else 31))}
        self.perms = {}
        yield "perm", {"dim": [1, 2, 3], "n": [1, 2, 3, 4, 5, 6],
                       "p": list(range(720 if q else 5040))}
        yield "count", {"dim": [1, 2, 3], "n": [1, 2, 3, 4], "extra": [-2, -1, 1, 2],
                        "fn": ["wb", "eq"]}
        yield "mismatch", {"sp": list(range(len(KINDS))), "sh": list(range(len(KINDS))),
                           "n": [0, 2], "fn": ["eq", "ec"]}

    def describe(self, state):
        name, cfg = self.config(state)
        if name in ("space", "cube"):
            fl = self.cubes if name == "cube" else self.fl
            return {"grid": name, **cfg, "f": [list(x) for x in fl[cfg["f"]]]}
        return {"grid": name, **cfg}

    def valid(self, name, cfg):
        if name == "space":
            return cfg["style"] in spaces.styles(self.fl[cfg["f"]])
        if name == "perm":
            return cfg["p"] < len(self._perms(cfg["dim"], cfg["n"]))
        if name == "direct":
            return ref.space_dim([(cfg["dim"], cfg["n"])]) <= 1800
        return True

    def _perms(self, d, n):
        if (d, n) not in self.perms:
            m = ref.space_dim([(d, n)])
            if m <= (6 if self.tier == "quick" else 7):
                ps = list(itertools.permutations(range(m)))
            else:
                i = list(range(m))
                ps = [i[::-1]] + [i[k:] + i[:k] for k in range(m)]
                for a in range(m):
                    for b in range(a):
                        j = i[:]
                        j[a], j[b] = j[b], j[a]
                        ps.append(j)
            self.perms[d, n] = ps[:720 if self.tier == "quick" else 5040]
        return self.perms[d, n]

    def obs_space(self, ctx, f, style):
        factors = self.fl[f]
        self._decide(ctx, factors, *spaces.build(factors, style))

    def obs_cube(self, ctx, f):
        factors = self.cubes[f]
        d = len(factors)
        self._decide(ctx, factors, mp.QN(d, factors[0][1] if d else 1), mp.Hypercube(d))

    def _decide(self, ctx, factors, space, shape):
        dims = [d for d, _ in factors]
        D = sum(dims)
        n = ref.space_dim(factors)
        tuples = list(mp.node_tuples_for_space(space))
        ctx.eq("count", len(tuples), n)
        ctx.eq("distinct", len(set(tuples)), n)
        want = {t for t in ref.tp_ids(factors)}
        ctx.eq("tuples", {tuple(int(k) for k in t) for t in tuples}, want)
        ctx.eq("again", list(mp.node_tuples_for_space(space)), tuples)
        # first factor varies fastest, as for modes
        per = [list(mp.node_tuples_for_space(mp.PN(d, k))) for d, k in factors]
        ctx.eq("order", tuples,
               [sum(t[::-1], ()) for t in itertools.product(*per[::-1])])
        tb = tuple_bary(factors, tuples)
        eq = mp.equispaced_nodes_for_space(space, shape)
        ctx.eq("equispaced-shape", eq.shape, (D, n))
        ctx.close("equispaced", bary(dims, eq), tb, 1e-13)
        ec = mp.edge_clustered_nodes_for_space(space, shape)
        ctx.eq("clustered-shape", ec.shape, (D, n))
        if ec.shape != (D, n):
            return
        ctx.true("inside", ref.inside(dims, ec, 1e-12).all(), "node outside the shape")
        cb = bary(dims, ec)
        # same face incidence as the node tuple
        big = [i for d, k in factors for i in [k > 0] * (d + 1)]
        inc = (tb < 1e-12)[big]
        ctx.true("incidence", ((np.abs(cb[big]) < 1e-9) == inc).all(),
                 "node and node tuple lie on different faces")
        if n > 1 and D and D <= 4:
            # the order of the barycentric coordinates is that of the tuple
            o = 0
            for d, k in factors:
                for a in range(o, o + d + 1):
                    for b in range(o, a):
                        s = np.sign(tb[a] - tb[b]) * (np.abs(tb[a] - tb[b]) > 1e-9)
                        g = cb[a] - cb[b]
                        ctx.true("ordering", ((g * s >= -1e-12)
                                              & ((s != 0) | (np.abs(g) < 1e-9))).all())
                o += d + 1
        for label, x in (("equispaced", eq), ("clustered", ec)):
            V = ref.tp_basis(factors, x)
            c = ref.cond(V)
            deg = max((k for d, k in factors if d), default=0)
            # equispaced sets lose independence numerically at large order
            if label == "clustered" or deg <= 12:
                lim = 1e4 if label == "clustered" else 1e7
                ctx.true(f"unisolvent-{label}", c < lim * 1.5 ** (len(factors) * deg),
                         f"condition {c:.3g}")
            if n > 1:
                i = np.argsort(x[0] if D else 0)
                dist = np.abs(x[:, :, None] - x[:, None, :]).max(axis=0) \
                    + 9 * np.eye(n)
                ctx.true(f"distinct-{label}", dist.min() > 1e-4 / (1 + deg) ** 2)
        ctx.note(n)

    def obs_direct(self, ctx, dim, n):
        t = list(mp.node_tuples_for_space(mp.PN(dim, n)))
        x = mp.equidistant_nodes(dim, n)
        ctx.close("equidistant", bary([dim], x), tuple_bary([(dim, n)], t), 1e-13)
        ctx.eq("shape", x.shape, (dim, len(t)))
        if dim <= 3:
            w = mp.warp_and_blend_nodes(dim, n)
            ctx.eq("shape", w.shape, (dim, len(t)))
            ctx.close("same", w, mp.edge_clustered_nodes_for_space(
                mp.PN(dim, n), mp.Simplex(dim)), 1e-15)
        else:
            if n:
                ctx.raises("unsupported", NotImplementedError,
                           lambda: mp.warp_and_blend_nodes(dim, n))
            ctx.close("fallback", mp.edge_clustered_nodes_for_space(
                mp.PN(dim, n), mp.Simplex(dim)), x, 1e-15)

    def obs_perm(self, ctx, dim, n, p):
        perm = list(self._perms(dim, n)[p])
        t = list(mp.node_tuples_for_space(mp.PN(dim, n)))
        pt = [t[i] for i in perm]
        ctx.close("equidistant", mp.equidistant_nodes(dim, n, pt),
                  mp.equidistant_nodes(dim, n)[:, perm], 1e-15)
        ctx.close("warp", mp.warp_and_blend_nodes(dim, n, pt),
                  mp.warp_and_blend_nodes(dim, n)[:, perm], 1e-14)

    def obs_count(self, ctx, dim, n, extra, fn):
        t = list(mp.node_tuples_for_space(mp.PN(dim, n)))
        t = t[:extra] if extra < 0 else t + t[:extra]
        f = mp.warp_and_blend_nodes if fn == "wb" else mp.equidistant_nodes
        ctx.raises("length", ValueError, lambda: f(dim, n, t))

    def obs_mismatch(self, ctx, sp, sh, n, fn):
        (ks, ds), (kh, dh) = KINDS[sp], KINDS[sh]
        mk = {"s": "simplex", "c": "cube", "t": "tp"}
        from mc.shapes import shape_of, space_of
        space = mp.QN(len(ds), n) if ks == "c" else space_of([(d, n) for d in ds], mk[ks])
        shape = shape_of(dh, mk[kh])
        f = {"eq": mp.equispaced_nodes_for_space,
             "ec": mp.edge_clustered_nodes_for_space}[fn]
        tps, tph = (isinstance(space, mp.TensorProductSpace),
                    isinstance(shape, mp.TensorProductShape))
        if tps == tph and tuple(ds) == tuple(dh):
            self._decide(ctx, [(d, n) for d in ds], space, shape)
        elif sum(ds) == sum(dh) == 0 and tps == tph:
            pass
        else:
            ctx.raises("mismatch", (ValueError, NotImplementedError),
                       lambda: f(space, shape))


KINDS = [("s", (0,)), ("s", (1,)), ("s", (2,)), ("s", (3,)), ("s", (4,)), ("c", (1, 1)),
         ("c", (1, 1, 1)), ("t", (2, 1)), ("t", (1, 2)), ("t", (1, 1)), ("t", (3, 1)),
         ("t", (1, 2, 1)), ("t", (1, 1, 2))]
