"""C15: node sets are symmetric, and their traces on faces and edges are compatible."""
import itertools

import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.checks.c14 import bary
from mc.engine import GridModel


def match(a, b, tol=1e-10):
    """Is the point set a (D, n) equal to b as a set?"""
    if a.shape != b.shape:
        return False
    if a.shape[1] == 0:
        return True
    d = np.abs(a[:, :, None] - b[:, None, :]).max(axis=0)
    j = d.argmin(axis=1)
    return bool(d.min(axis=1).max() < tol and len(set(j.tolist())) == len(j))


def lgl(n):
    """Legendre-Gauss-Lobatto points from the reference basis: -1, 1, roots of P_n'."""
    if n == 0:
        return np.zeros(1)
    if n == 1:
        return np.array([-1.0, 1.0])
    c = np.zeros(n + 1)
    c[n] = 1
    r = np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c))
    return np.concatenate([[-1.0], np.sort(r.real), [1.0]])


class MODEL(GridModel):
    id = "C15"
    bounds = ("every order up to the limit below for simplices of dim 1..3, every "
              "permutation of the vertices (2, 6, 24); every edge and face; products "
              "with all mixed orders: every product of factor symmetries, every "
              "transposition of equal factors")
    assumptions = []

    def grids(self, tier):
        q = tier == "quick"
        lim = {1: 30 if q else 60, 2: 18 if q else 26, 3: 10 if q else 18}
        yield "simplex", {"d": [1, 2, 3], "n": list(range(0, max(lim.values()) + 1)),
                          "p": list(range(24)), "fam": ["eq", "ec"]}
        self.lim = lim
        yield "trace", {"d": [1, 2, 3], "n": list(range(0, max(lim.values()) + 1)),
                        "fam": ["eq", "ec"]}
        self.fl = spaces.factor_lists(
            {}, {2: [0, 1, 2, 3, 4, 6], 3: [0, 1, 2, 3]}, max_dim=4 if q else 5,
            max_size=400)
        yield "product", {"f": list(range(len(self.fl))), "fam": ["eq", "ec"]}
        yield "glob", {"dims": [1, 2, 3, 4], "n": list(range(0, 8))}

    def describe(self, state):
        name, cfg = self.config(state)
        if name == "product":
            return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}
        return {"grid": name, **cfg}

    def valid(self, name, cfg):
        if name == "simplex":
            return cfg["n"] <= self.lim[cfg["d"]] and \
                cfg["p"] < [0, 2, 6, 24][cfg["d"]]
        if name == "trace":
            return cfg["n"] <= self.lim[cfg["d"]]
        if name == "glob":
            return (cfg["n"] + 1) ** cfg["dims"] <= 1300
        return True

    @staticmethod
    def nodes(fam, space, shape):
        return (mp.equispaced_nodes_for_space if fam == "eq"
                else mp.edge_clustered_nodes_for_space)(space, shape)

    def obs_simplex(self, ctx, d, n, p, fam):
        b = bary([d], self.nodes(fam, mp.PN(d, n), mp.Simplex(d)))
        perm = list(itertools.permutations(range(d + 1)))[p]
        ctx.true("symmetric", match(b[list(perm)], b),
                 f"not invariant under the vertex permutation {perm}")

    def obs_trace(self, ctx, d, n, fam):
        x = self.nodes(fam, mp.PN(d, n), mp.Simplex(d))
        if n == 0:
            ctx.close("centroid", bary([d], x), np.full((d + 1, 1), 1 / (d + 1)), 1e-14)
            return
        b = bary([d], x)
        line = np.linspace(-1, 1, n + 1) if fam == "eq" else lgl(n)
        # every edge carries the one-dimensional node set
        for i, j in itertools.combinations(range(d + 1), 2):
            others = [k for k in range(d + 1) if k not in (i, j)]
            on = (np.abs(b[others]) < 1e-9).all(axis=0)
            s = np.sort(b[j, on] - b[i, on])
            ctx.close(f"edge-{i}{j}", s, line, 1e-10)
        # every face carries the same node set
        if d == 3:
            faces = [b[[k for k in range(4) if k != f]][:, np.abs(b[f]) < 1e-9]
                     for f in range(4)]
            for f in range(1, 4):
                ctx.true("face", match(faces[f], faces[0]), f"face {f}")
            ctx.eq("face-count", faces[0].shape[1], (n + 1) * (n + 2) // 2)
        # every vertex is a node
        ctx.eq("vertices", int((b.max(axis=0) > 1 - 1e-9).sum()), d + 1)

    def obs_product(self, ctx, f, fam):
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        space, shape = spaces.build(factors)
        x = self.nodes(fam, space, shape)
        # the node set is the product of the node sets of the factors
        per = [self.nodes(fam, mp.PN(d, n), mp.Simplex(d)) for d, n in factors]
        want = [np.concatenate([q[:, i] for q, i in zip(per, t)])
                for t in itertools.product(*(range(q.shape[1]) for q in per))]
        ctx.true("product", match(x, np.array(want).T), "not the product of the factors")
        b = bary(dims, x)
        blocks, o = [], 0
        for d in dims:
            blocks.append(list(range(o, o + d + 1)))
            o += d + 1
        for k, blk in enumerate(blocks):
            for i, j in itertools.combinations(blk, 2):
                idx = list(range(o))
                idx[i], idx[j] = j, i
                ctx.true("symmetric", match(b[idx], b), f"vertex swap in factor {k}")
        for k, m in itertools.combinations(range(len(factors)), 2):
            if factors[k] == factors[m]:
                idx = list(range(o))
                for i, j in zip(blocks[k], blocks[m]):
                    idx[i], idx[j] = j, i
                ctx.true("swap", match(b[idx], b), f"swap of factors {k}, {m}")

    def obs_glob(self, ctx, dims, n):
        """Named hypercube node sets."""
        if n >= 1:
            x = mp.legendre_gauss_lobatto_tensor_product_nodes(dims, n)
            g = lgl(n)
            want = np.array(list(itertools.product(g, repeat=dims))).T
            ctx.true("lgl", match(x, want))
            if dims > 1:
                ctx.close("lgl-space", x, mp.edge_clustered_nodes_for_space(
                    mp.QN(dims, n), mp.Hypercube(dims)), 1e-13)
        x = mp.legendre_gauss_tensor_product_nodes(dims, n)
        want = np.array(list(itertools.product(ref.leggauss(n + 1)[0], repeat=dims))).T
        ctx.true("lg", match(x, want))
        if dims > 1:
            q = mp.LegendreGaussTensorProductQuadrature(n, dims)
            ctx.close("lg-quadrature", x, q.nodes, 1e-13)
