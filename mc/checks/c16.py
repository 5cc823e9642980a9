"""C16: tensor product nodes and the (un)reshaping of degree-of-freedom arrays."""
import itertools

import numpy as np

import modepy as mp
import modepy.tools as mpt
from mc import ref, spaces
from mc.engine import GridModel

# (dim, nnodes, flat) of one node set
SETS = [(1, 1, False), (1, 2, False), (1, 3, True), (1, 4, False), (2, 1, False),
        (2, 3, False), (3, 4, False), (0, 1, False), (2, 5, False), (1, 1, True)]
DTYPES = ["f8", "f4", "mixed", "F", "int", "int-even", "int-odd", "cplx-odd"]


def mkset(i, k, dtype):
    d, n, flat = SETS[i]
    x = (np.arange(d * n, dtype=float).reshape(d, n) + 1) * 0.01 + k + 1
    if dtype == "f4" or (dtype == "mixed" and k % 2):
        x = x.astype(np.float32)
    if dtype == "int" or dtype == ("int-odd" if k % 2 else "int-even"):
        x = np.floor(x * 100).astype(int)
    if dtype == "cplx-odd" and k % 2:
        x = x * (1 + 2j)
    if dtype == "F":
        x = np.asfortranarray(x)
    return x[0] if flat else x


class Wrapped:
    """A minimal user-defined Reshapeable (the documented protocol)."""

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    def reshape(self, shape, *, order="C"):
        return Wrapped(self.a.reshape(shape, order=order))


class MODEL(GridModel):
    id = "C16"
    bounds = ("tensor_product_nodes of every sequence of length 0..3 (thorough 4) over "
              "%d node sets (0-3 dimensional, flat and (d, n)) x %d dtype/order choices; "
              "(un)reshape for every supported space below x every array rank 1..4, "
              "every axis counted from either end, memory order, dtype; every wrong "
              "axis and length" % (len(SETS), len(DTYPES)))
    assumptions = []

    def grids(self, tier):
        q = tier == "quick"
        m = range(len(SETS))
        yield "nodes0", {"dtype": ["f8"]}
        yield "nodes1", {"a": list(m), "dtype": DTYPES}
        yield "nodes2", {"a": list(m), "b": list(m), "dtype": DTYPES}
        yield "nodes3", {"a": list(m), "b": list(m), "c": list(m), "dtype": DTYPES}
        if not q:
            yield "nodes4", {"a": list(m), "b": list(m), "c": list(m), "d": list(m),
                             "dtype": ["f8"]}
        yield "power", {"dims": [0, 1, 2, 3, 4, 5], "n": [1, 2, 3, 4],
                        "flat": [False, True]}
        self.fl = spaces.factor_lists(
            {0: 1, 1: 3, 2: 2, 3: 1},
            {2: [0, 1, 2, 3], 3: [0, 1, 2], 4: [0, 1]},
            max_factors=3 if q else 4, zero=True, max_dim=4 if q else 5, max_size=120)
        rank = [(r, a) for r in (1, 2, 3, 4) for a in range(r)]
        yield "reshape", {"f": list(range(len(self.fl))),
                          "ra": list(range(len(rank))), "neg": [False, True],
                          "mem": ["C", "F", "strided", "wrapped", "complex"]}
        self.rank = rank
        yield "bad", {"f": list(range(len(self.fl))), "case": list(range(6))}
        yield "dofs", {"f": list(range(len(self.fl))),
                       "what": ["eq", "ec", "modal", "quad"]}

    def describe(self, state):
        name, cfg = self.config(state)
        if "f" in cfg:
            return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}
        return {"grid": name, **cfg}

    def valid(self, name, cfg):
        if name == "bad":
            return len(self.fl[cfg["f"]]) > 1
        if name == "reshape":
            f = self.fl[cfg["f"]]
            return not (cfg["mem"] != "C" and ref.space_dim(f) > 60)
        return True

    def _nodes(self, ctx, dtype, **kw):
        idx = list(kw.values())
        sets = [mkset(i, k, dtype) for k, i in enumerate(idx)]
        orig = [s.copy() for s in sets]
        got = mp.tensor_product_nodes(sets)
        mats = [s.reshape(1, -1) if s.ndim == 1 else s for s in sets]
        D = sum(m.shape[0] for m in mats)
        cols = [np.concatenate([m[:, i] for m, i in zip(mats, t[::-1])]) if mats
                else np.zeros(0)
                for t in itertools.product(*(range(m.shape[1]) for m in mats[::-1]))]
        want = np.array(cols).reshape(len(cols), D).T
        if D == 0:
            ctx.eq("shape", got.shape, (0, 1))
            return
        # first factor varies fastest
        ctx.close("nodes", got, want, 1e-6 if dtype in ("f4", "mixed") else 0)
        ctx.eq("dtype", got.dtype, np.result_type(*mats))
        for s, o in zip(sets, orig):
            ctx.close("input-unchanged", s, o, 0)
            ctx.true("fresh", not np.shares_memory(s, got))

    obs_nodes0 = obs_nodes1 = obs_nodes2 = obs_nodes3 = obs_nodes4 = _nodes

    def obs_power(self, ctx, dims, n, flat):
        x = np.cos(np.arange(n) + 0.3)
        got = mp.tensor_product_nodes(dims, x if flat else x.reshape(1, -1))
        if dims == 0:
            ctx.eq("shape", got.shape, (0, 1))
            return
        want = np.array([t[::-1] for t in itertools.product(x, repeat=dims)]).T
        ctx.close("nodes", got, want, 0)
        ctx.raises("args", ValueError, lambda: mp.tensor_product_nodes(dims))
        ctx.raises("args", ValueError, lambda: mp.tensor_product_nodes([x, x], x))

    def obs_reshape(self, ctx, f, ra, neg, mem):
        factors = self.fl[f]
        space, _ = spaces.build(factors)
        r, ax = self.rank[ra]
        n = ref.space_dim(factors)
        sizes = [ref.space_dim([x]) for x in factors]
        shp = [2, 3, 2, 3][:r]
        shp[ax] = n
        a = np.arange(np.prod(shp), dtype=float).reshape(shp) + 0.5
        if mem == "F":
            a = np.asfortranarray(a)
        elif mem == "strided":
            big = np.zeros([2 * s for s in shp])
            sl = tuple(slice(None, None, 2) for _ in shp)
            big[sl] = a
            a = big[sl]
        elif mem == "complex":
            a = a + 1j * a[::-1]
        a0 = a.copy()
        arg = Wrapped(a) if mem == "wrapped" else a
        axis = ax - r if neg else ax
        got = mpt.reshape_array_for_tensor_product_space(space, arg, axis)
        back = None
        if isinstance(space, mp.TensorProductSpace):
            m = len(sizes)
            # back to one axis; negative axes count the axes of the flat array
            back = mpt.unreshape_array_for_tensor_product_space(space, got, axis)
            if axis == -1:
                ctx.eq("default-axis",
                       mpt.reshape_array_for_tensor_product_space(space, arg).shape,
                       got.shape)
        else:
            sizes = [n]
            back = mpt.unreshape_array_for_tensor_product_space(space, got, axis)
        if mem == "wrapped":
            got, back = got.a, back.a
        ctx.eq("shape", got.shape, (*shp[:ax], *sizes, *shp[ax + 1:]))
        if got.shape != (*shp[:ax], *sizes, *shp[ax + 1:]):
            return
        want = np.empty(got.shape, a.dtype)
        for t in itertools.product(*(range(s) for s in sizes)):
            lin, st = 0, 1
            for i, s in zip(t, sizes):
                lin += i * st
                st *= s
            want[(*[slice(None)] * ax, *t)] = a[(*[slice(None)] * ax, lin)]
        ctx.close("entries", got, want, 0)
        ctx.close("roundtrip", back, a0, 0)
        ctx.close("input-unchanged", a, a0, 0)
        ctx.eq("dtype", got.dtype, a.dtype)

    def obs_bad(self, ctx, f, case):
        factors = self.fl[f]
        space, _ = spaces.build(factors)
        n = ref.space_dim(factors)
        a = np.zeros((2, n))
        R, U = (mpt.reshape_array_for_tensor_product_space,
                mpt.unreshape_array_for_tensor_product_space)
        if case == 0:
            ctx.raises("axis", ValueError, lambda: R(space, a, 2))
        elif case == 1:
            ctx.raises("axis", ValueError, lambda: R(space, a, -3))
        elif case == 2:
            ctx.raises("length", ValueError, lambda: R(space, np.zeros((2, n + 1))))
        elif case == 3:
            b = R(space, a)
            ctx.raises("axis", ValueError, lambda: U(space, b, 2))
            ctx.raises("axis", ValueError, lambda: U(space, b, -3))
        elif case == 4:
            b = R(space, a)
            ctx.raises("length", ValueError,
                       lambda: U(space, np.zeros((*b.shape[:-1], b.shape[-1] + 1))))
        elif n != 2:
            ctx.raises("length", ValueError, lambda: R(space, a, 0))

    def obs_dofs(self, ctx, f, what):
        """Variation along a factor is variation along its axis, for nodal, modal and
        quadrature-free data."""
        factors = self.fl[f]
        space, shape = spaces.build(factors)
        sizes = tuple(ref.space_dim([x]) for x in factors)
        dims = [d for d, _ in factors]
        R = mpt.reshape_array_for_tensor_product_space
        if what in ("eq", "ec"):
            fn = mp.equispaced_nodes_for_space if what == "eq" \
                else mp.edge_clustered_nodes_for_space
            x = R(space, fn(space, shape))
            o = 0
            if len(factors) == 1:
                ctx.eq("shape", x.shape, (dims[0], sizes[0]))
                return
            for k, (d, n) in enumerate(factors):
                own = fn(mp.PN(d, n), mp.Simplex(d))
                for a in range(d):
                    b = own[a].reshape([-1 if j == k else 1
                                        for j in range(len(sizes))])
                    ctx.close("nodes", x[o + a], np.broadcast_to(b, sizes), 1e-14)
                o += d
        elif what == "modal":
            p = ref.generic_points(dims, 4)
            b = spaces.basis_of("onb", factors)
            V = R(space, np.array([np.broadcast_to(g(p), (4,)) for g in b.functions]),
                  axis=0)
            want = np.ones((1,) * len(sizes) + (4,))
            o = 0
            for k, (d, n) in enumerate(factors):
                bk = spaces.basis_of("onb", ((d, n),))
                vk = np.array([np.broadcast_to(g(p[o:o + d]), (4,))
                               for g in bk.functions])
                o += d
                want = want * vk.reshape(*(-1 if j == k else 1
                                           for j in range(len(sizes))), 4)
            ctx.close("modes", V, want, 1e-11 * (1 + np.abs(want).max()))
        else:
            # the separable function of the nodes is the outer product
            if not sum(dims):
                return
            x = mp.equispaced_nodes_for_space(space, shape)
            vals = np.prod([np.cos(x[k] + k) for k in range(len(x))], axis=0)
            T = R(space, vals)
            if len(factors) == 1:
                return
            want = np.ones((1,) * len(sizes))
            o = 0
            for k, (d, n) in enumerate(factors):
                own = mp.equispaced_nodes_for_space(mp.PN(d, n), mp.Simplex(d))
                vk = np.prod([np.cos(own[a] + o + a) for a in range(d)], axis=0) \
                    * np.ones(sizes[k])
                o += d
                want = want * vk.reshape([-1 if j == k else 1
                                          for j in range(len(sizes))])
            ctx.close("separable", T, want, 1e-13)
