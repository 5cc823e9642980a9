"""C22: the algebra of shapes and spaces: constructors, flattening, counts, identity."""
import copy
import itertools
import math
import pickle

import numpy as np

import modepy as mp
from mc.engine import Model

SHAPE_ATOMS = [("S", d) for d in range(5)] + [("H", d) for d in range(5)]
SPACE_ATOMS = ([("P", d, n) for d in range(4) for n in (0, 1, 2, 3)]
               + [("Q", d, n) for d in range(4) for n in (0, 1, 2)])
SPACE_FEW = [("P", 1, 2), ("P", 2, 1), ("Q", 0, 1), ("Q", 1, 2), ("Q", 2, 1)]
UNSUPPORTED = "unsupported"


def vertices(dims):
    """(dim, nvertices): the first factor's vertices vary fastest."""
    simplex = [[(-1,) * d] + [tuple(1 if i == j else -1 for j in range(d))
                              for i in range(d)] for d in dims]
    combos = itertools.product(*simplex[::-1])
    return np.array([sum(c[::-1], ()) for c in combos], dtype=float).reshape(
        math.prod(d + 1 for d in dims), sum(dims)).T


def shape_model(t):
    """(kind, dims) or UNSUPPORTED; kind in simplex/cube/product."""
    if t[0] == "S":
        return ("simplex", (t[1],))
    if t[0] == "H":
        return ("simplex", (1,)) if t[1] == 1 else ("cube", (1,) * t[1])
    kids = [shape_model(c) for c in t[1]]
    if UNSUPPORTED in kids:
        return UNSUPPORTED
    if len(kids) == 1 and kids[0][0] == "simplex":
        return kids[0]
    dims = tuple(d for _, ds in kids for d in ds)
    if sum(1 for d in dims if d != 1) > 1:
        return UNSUPPORTED
    return ("product", dims)


def shape_build(t):
    if t[0] == "S":
        return mp.Simplex(t[1])
    if t[0] == "H":
        return mp.Hypercube(t[1])
    return mp.TensorProductShape(tuple(shape_build(c) for c in t[1]))


def space_model(t):
    if t[0] == "P":
        return ("pn", ((t[1], t[2]),))
    if t[0] == "Q":
        return ("pn", ((1, t[2]),)) if t[1] == 1 else ("qn", ((1, t[2]),) * t[1])
    kids = [space_model(c) for c in t[1]]
    if len(kids) == 1 and kids[0][0] == "pn":
        return kids[0]
    return ("tp", tuple(f for _, fs in kids for f in fs))


def space_build(t):
    if t[0] == "P":
        return mp.PN(t[1], t[2])
    if t[0] == "Q":
        return mp.QN(t[1], t[2])
    return mp.TensorProductSpace(tuple(space_build(c) for c in t[1]))


def copies(x):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield f"pickle{p}", pickle.loads(pickle.dumps(x, p))


def depth(t):
    return 1 + max((depth(c) for c in t[1]), default=0) if t[0] == "T" else 0


class MODEL(Model):
    id = "C22"
    bounds = ("all construction expressions over Simplex(0..4), Hypercube(0..4) resp. "
              "PN(0..3, 0..3), QN(0..3, 0..2): products nested to depth 2 (thorough 3) "
              "with 0..3 operands, operands added on either side (dimension at most 7/9); all int orders 0..5 "
              "and all order tuples over {0, 1, 2, 4}; copy, deepcopy, every pickle "
              "protocol; every pair of depth-1 expressions for equality and hash")

    def init(self, tier):
        self.q = tier == "quick"
        out = [("shape", a) for a in SHAPE_ATOMS] + [("space", a) for a in SPACE_ATOMS]
        out += [("shape", ("T", ())), ("space", ("T", ()))]
        small = SHAPE_ATOMS + [("T", (a, b)) for a in SHAPE_ATOMS for b in SHAPE_ATOMS]
        self.small = [t for t in small if self.keep(("shape", t))
                      and shape_model(t) != UNSUPPORTED]
        out += [("eq", i) for i in range(len(self.small))]
        # large orders and dimensions: the counts are exact integers
        out += [("count", (d, n)) for d in range(13) for n in range(101)]
        return out

    def events(self, state, tier):
        kind, t = state
        if kind in ("eq", "count"):
            return []
        if kind == "shape":
            if shape_model(t) == UNSUPPORTED:
                return []
            atoms = SHAPE_ATOMS
        else:
            atoms = SPACE_ATOMS if depth(t) < 1 else SPACE_FEW
        ev = []
        if depth(t) < (2 if self.q else 3):
            ev.append(("wrap",))
            ev += [("right", a) for a in atoms] + [("left", a) for a in atoms]
        if t[0] == "T" and 1 <= len(t[1]) < 3 and depth(t) <= 1:
            ev += [("append", a) for a in atoms]
        return ev

    def step(self, state, event):
        kind, t = state
        if event[0] == "wrap":
            return kind, ("T", (t,))
        if event[0] == "right":
            return kind, ("T", (t, event[1]))
        if event[0] == "left":
            return kind, ("T", (event[1], t))
        return kind, ("T", (*t[1], event[1]))

    def keep(self, state):
        # a product that flattens to a single factor without being one is degenerate
        kind, t = state
        if kind in ("eq", "count"):
            return True
        m = shape_model(t) if kind == "shape" else space_model(t)
        if m != UNSUPPORTED:
            dim = sum(m[1]) if kind == "shape" else sum(d for d, _ in m[1])
            if dim > (7 if self.q else 9):
                return False
        return m == UNSUPPORTED or m[0] in ("simplex", "pn") or len(m[1]) != 1

    def describe(self, state):
        return {"kind": state[0], "expression": state[1]
                if state[0] != "eq" else self.small[state[1]]}

    def observe(self, state, ctx):
        getattr(self, "obs_" + state[0])(ctx, state[1])

    # -- shapes ------------------------------------------------------------
    def check_shape(self, ctx, s, kind, dims, lab=""):
        cls = {"simplex": mp.Simplex, "cube": mp.Hypercube,
               "product": mp.TensorProductShape}[kind]
        if not ctx.true(lab + "class", isinstance(s, cls), f"{type(s)} for {kind}"):
            return
        ctx.eq(lab + "exact-class", type(s), cls)
        ctx.eq(lab + "dim", s.dim, sum(dims))
        ctx.eq(lab + "nvertices", s.nvertices, math.prod(d + 1 for d in dims))
        if all(d >= 1 for d in dims) and dims:
            ctx.eq(lab + "nfaces", s.nfaces,
                   sum(2 if d == 1 else d + 1 for d in dims))
        if kind != "simplex":
            ctx.true(lab + "bases", isinstance(s.bases, tuple)
                     and all(type(b) is mp.Simplex for b in s.bases))
            ctx.eq(lab + "base-dims", tuple(b.dim for b in s.bases), dims)

    def obs_shape(self, ctx, t):
        m = shape_model(t)
        if m == UNSUPPORTED:
            ctx.raises("unsupported", NotImplementedError, lambda: shape_build(t),
                       f"product {t}")
            return
        kind, dims = m
        s = shape_build(t)
        self.check_shape(ctx, s, kind, dims)
        v = mp.unit_vertices_for_shape(s)
        ctx.eq("vertex-shape", v.shape, (sum(dims), math.prod(d + 1 for d in dims)))
        ctx.close("vertices", v, vertices(dims), 0)
        v += 17
        ctx.close("vertices-again", mp.unit_vertices_for_shape(s),
                  vertices(dims), 0)
        other = shape_build(t)
        ctx.true("equal", s == other and not (s != other))
        ctx.eq("hash", hash(s), hash(other))
        for how, c in copies(s):
            self.check_shape(ctx, c, kind, dims, how + "-")
            ctx.true(how + "-equal", c == s and hash(c) == hash(s))
        for attr in ("dim", *(["bases"] if kind != "simplex" else [])):
            ctx.raises("frozen", AttributeError, lambda a=attr: setattr(s, a, 3),
                       f"assignment to {attr}")
        self.check_shape(ctx, s, kind, dims, "after-")
        # spaces on the shape
        for n in range(6):
            sp = mp.space_for_shape(s, n)
            self.check_space(ctx, sp, "pn" if kind == "simplex" else "tp",
                             tuple((d, n) for d in dims), f"space{n}-", strict=False)
        if kind == "simplex":
            return
        for ns in itertools.product((0, 1, 2, 4) if depth(t) < 2 else (1, 2),
                                    repeat=min(len(dims), 4)):
            if len(ns) != len(dims):
                break
            sp = mp.space_for_shape(s, ns)
            self.check_space(ctx, sp, "tp", tuple(zip(dims, ns)), f"space{ns}-",
                             strict=False)
        for k in (len(dims) - 1, len(dims) + 1):
            if k >= 0:
                ctx.raises("orders", ValueError,
                           lambda k=k: mp.space_for_shape(s, (1,) * k),
                           f"{k} orders for {len(dims)} factors")

    def obs_eq(self, ctx, i):
        a = shape_build(self.small[i])
        ka = shape_model(self.small[i])
        table = {a: 1}
        for t in self.small:
            b, kb = shape_build(t), shape_model(t)
            if ka == kb:
                ctx.true("equal", a == b and not (a != b), f"{a} vs {b}")
                ctx.true("hash", table.get(b) == 1, f"{a} vs {b}")
            elif ka[1] != kb[1] or "simplex" in (ka[0], kb[0]):
                ctx.true("different", a != b and not (a == b), f"{a} vs {b}")
                ctx.true("lookup", table.get(b) is None, f"{a} vs {b}")

    def obs_count(self, ctx, dn):
        d, n = dn
        self.check_space(ctx, mp.PN(d, n), "pn", ((d, n),), strict=True)
        q = mp.QN(d, n)
        self.check_space(ctx, q, "pn" if d == 1 else "qn", ((1, n),) * d)
        if d > 1:
            # two factors of different kind
            f = ((1, n), (d, n // 2))
            self.check_space(ctx, mp.TensorProductSpace(
                (mp.PN(1, n), mp.PN(d, n // 2))), "tp", f)

    # -- spaces ------------------------------------------------------------
    def check_space(self, ctx, s, kind, fs, lab="", strict=True):
        cls = {"pn": mp.PN, "qn": mp.QN, "tp": mp.TensorProductSpace}[kind]
        if not ctx.true(lab + "class", isinstance(s, cls), f"{type(s)} for {kind}"):
            return
        if strict:
            ctx.eq(lab + "exact-class", type(s), cls)
        ctx.eq(lab + "spatial-dim", s.spatial_dim, sum(d for d, _ in fs))
        ctx.eq(lab + "space-dim", s.space_dim,
               math.prod(math.comb(n + d, d) for d, n in fs))
        ctx.true(lab + "int", isinstance(s.space_dim, int)
                 and isinstance(s.spatial_dim, int))
        if len({n for _, n in fs}) == 1:
            ctx.eq(lab + "order", s.order, fs[0][1])
        elif fs:
            ctx.raises(lab + "order", AttributeError, lambda: s.order,
                       f"order of {fs}")
        if kind != "pn":
            ctx.true(lab + "bases", isinstance(s.bases, tuple)
                     and all(type(b) is mp.PN for b in s.bases))
            ctx.eq(lab + "base-factors",
                   tuple((b.spatial_dim, b.order) for b in s.bases), fs)
        ctx.true(lab + "repr", isinstance(repr(s), str))

    def obs_space(self, ctx, t):
        kind, fs = space_model(t)
        s = space_build(t)
        self.check_space(ctx, s, kind, fs)
        if kind != "pn" and fs:
            # using a space as an operand leaves it alone
            mp.TensorProductSpace((s, mp.PN(1, 2), s))
            self.check_space(ctx, s, kind, fs, "operand-")
        for how, c in copies(s):
            self.check_space(ctx, c, kind, fs, how + "-")
        n = len(mp.node_tuples_for_space(s)) if fs and s.space_dim < 500 \
            else math.prod(math.comb(n + d, d) for d, n in fs)
        ctx.eq("node-count", n, math.prod(math.comb(n + d, d) for d, n in fs))
        ctx.true("finite", np.isfinite(s.space_dim))
