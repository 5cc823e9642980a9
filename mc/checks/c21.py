"""C21: submeshes tessellate the reference element."""
import itertools
import math

import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.engine import GridModel


def decompose(el_dims, nodes):
    """Split a product-of-simplices element (vertices: first factor fastest) into
    simplices by its vertex array; returns list of vertex index tuples."""
    # staircase triangulation of a product of simplices
    per = [list(range(d + 1)) for d in el_dims]

    def paths(pos):
        if all(p == d for p, d in zip(pos, el_dims)):
            yield [pos]
            return
        for k, d in enumerate(el_dims):
            if pos[k] < d:
                nxt = (*pos[:k], pos[k] + 1, *pos[k + 1:])
                for r in paths(nxt):
                    yield [pos, *r]

    def lin(t):
        i, st = 0, 1
        for a, p in zip(t, per):
            i += a * st
            st *= len(p)
        return i
    return [tuple(lin(t) for t in p) for p in paths((0,) * len(el_dims))]


class MODEL(GridModel):
    id = "C21"
    bounds = ("simplices of dim 1..3 (orders 1..10/10/6; thorough 16/14/9), every "
              "supported product of 2..3 factors with all mixed orders 1..3(4), "
              "hypercubes; default order and reversed / rotated / sorted / every "
              "permutation of up to 6 node tuples; every pair of elements for overlap "
              "via the exact volume and facet counts")
    assumptions = ["cells of a lattice: coverage is decided by volume plus a facet count "
                   "(every interior facet is shared by exactly two elements)"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = [((d, n),) for d, m in ((1, 10), (2, 10), (3, 6)) for n in
                   range(1, m + (1 if q else {1: 7, 2: 5, 3: 4}[d]))]
        for k, m in ((2, 4 if q else 5), (3, 3 if q else 4), (4, 2 if q else 3)):
            for ds in itertools.product([1, 2, 3], repeat=k):
                if not spaces.supported(ds) or sum(ds) > 4:
                    continue
                for ns in itertools.product(range(1, m), repeat=k):
                    f = tuple(zip(ds, ns))
                    if ref.space_dim(f) <= 400:
                        self.fl.append(f)
        yield "mesh", {"f": list(range(len(self.fl))),
                       "order": ["default", "reversed", "rotated", "sorted", "list",
                                 "shuffled"],
                       "style": ["tp", "nested", "cube"]}
        yield "perm", {"d": [1, 2, 3], "n": [1, 2, 3, 4, 5], "p": list(range(720))}
        yield "zero", {"d": [1, 2, 3], "style": ["s", "c"]}

    def describe(self, state):
        name, cfg = self.config(state)
        if "f" in cfg:
            return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}
        return {"grid": name, **cfg}

    def valid(self, name, cfg):
        if name == "mesh":
            f = self.fl[cfg["f"]]
            return cfg["style"] in spaces.styles(f)
        if name == "perm":
            m = ref.space_dim([(cfg["d"], cfg["n"])])
            return m <= 6 and cfg["p"] < math.factorial(m)
        return True

    def obs_mesh(self, ctx, f, order, style):
        factors = self.fl[f]
        space, shape = spaces.build(factors, style)
        t = list(mp.node_tuples_for_space(space))
        n = len(t)
        if order == "reversed":
            t = t[::-1]
        elif order == "rotated":
            t = t[n // 2:] + t[:n // 2]
        elif order == "sorted":
            t = sorted(t)
        elif order == "shuffled":
            t = [t[(i * 7919 + 3) % n] for i in range(n)] if n % 7919 else t
            t = list(dict.fromkeys(t))
        t0 = list(t)
        mesh = mp.submesh_for_shape(shape, t if order != "list" else tuple(t))
        ctx.eq("input-unchanged", t, t0)
        self._decide(ctx, factors, t, mesh)

    def obs_perm(self, ctx, d, n, p):
        t = list(mp.node_tuples_for_space(mp.PN(d, n)))
        perm = next(itertools.islice(itertools.permutations(t), p, None))
        self._decide(ctx, [(d, n)], list(perm),
                     mp.submesh_for_shape(mp.Simplex(d), perm))

    def obs_zero(self, ctx, d, style):
        if style == "s":
            m = mp.submesh_for_shape(mp.Simplex(d), [(0,) * d])
        else:
            if d == 1:
                return
            m = mp.submesh_for_shape(mp.Hypercube(d), [(0,) * d])
        ctx.eq("empty", list(m), [])

    def _decide(self, ctx, factors, t, mesh):
        dims = [d for d, _ in factors]
        D = sum(dims)
        nv = math.prod(d + 1 for d in dims)
        mesh = [tuple(int(i) for i in el) for el in mesh]
        ctx.true("arity", all(len(el) == nv and len(set(el)) == nv for el in mesh))
        ctx.eq("count", len(mesh), math.prod(n ** d for d, n in factors))
        ctx.eq("distinct", len({frozenset(el) for el in mesh}), len(mesh))
        ctx.true("range", all(0 <= i < len(t) for el in mesh for i in el))
        if not all(len(el) == nv for el in mesh):
            return
        ctx.eq("all-nodes-used", {i for el in mesh for i in el}, set(range(len(t))))
        x = np.array(t, dtype=float)
        # volume and orientation of every element, by its simplices
        tris = decompose(dims, nv)
        total = 0.0
        facets = {}
        ok = True
        for el in mesh:
            for s in tris:
                v = x[[el[i] for i in s]]
                vol = np.linalg.det(v[1:] - v[0])
                # orientation of the reference decomposition
                rv = ref.vertices(dims)
                # ref.vertices: first factor slowest -> reorder to first fastest
                total += abs(vol)
                ok &= abs(vol) > 1e-9
        ctx.true("nondegenerate", ok)
        want = math.prod(n ** d / math.factorial(d) for d, n in factors) \
            * math.factorial(D)
        ctx.close("volume", total, want, 1e-8 * max(want, 1))
        # orientation: the vertices of each element are ordered like those of the shape
        order = sorted(range(nv), key=lambda i: tuple(reversed(
            self._multi(dims, i))))
        edges = [self._lin(dims, tuple(1 + a if k == j else 0
                                       for k in range(len(dims))))
                 for j, d in enumerate(dims) for a in range(d)]
        for el in mesh:
            v = x[list(el)]
            det = np.linalg.det((v[edges] - v[0]))
            ctx.nobs += 1
            if not det > 1e-9:
                ctx.fail("orientation", f"element {el} has determinant {det}")
                break
        # every vertex of the element is where the product structure puts it
        for el in mesh:
            v = x[list(el)]
            for i in range(nv):
                mi = self._multi(dims, i)
                w = v[0].copy()
                for j, m in enumerate(mi):
                    w += v[self._lin(dims, tuple(m if k == j else 0
                                                 for k in range(len(dims))))] - v[0]
                if np.abs(w - v[i]).max() > 1e-12:
                    ctx.fail("product", f"element {el} is not a product element")
                    return
            ctx.nobs += 1
        # conforming: each facet inside belongs to two elements, else on the boundary
        for el in mesh:
            for fc in self._facets(dims):
                key = frozenset(el[i] for i in fc)
                facets[key] = facets.get(key, 0) + 1
        bad = 0
        for key, c in facets.items():
            pts = x[sorted(key)]
            onb = self._on_boundary(factors, pts)
            if c != (1 if onb else 2):
                bad += 1
        ctx.true("conforming", bad == 0, f"{bad} of {len(facets)} facets do not have "
                 "exactly two (interior) or one (boundary) element")
        ctx.note(len(mesh))

    @staticmethod
    def _multi(dims, i):
        out = []
        for d in dims:
            out.append(i % (d + 1))
            i //= d + 1
        return tuple(out)

    @staticmethod
    def _lin(dims, t):
        i, st = 0, 1
        for a, d in zip(t, dims):
            i += a * st
            st *= d + 1
        return i

    def _facets(self, dims):
        nv = math.prod(d + 1 for d in dims)
        out = []
        for j, d in enumerate(dims):
            for drop in range(d + 1):
                out.append([i for i in range(nv) if self._multi(dims, i)[j] != drop])
        return out

    @staticmethod
    def _on_boundary(factors, pts):
        o = 0
        for d, n in factors:
            p = pts[:, o:o + d]
            o += d
            if (p == 0).all(axis=0).any() or (p.sum(axis=1) == n).all():
                return True
        return False
