"""C03: composite rules -- tensor products, transformed intervals, Witherden-Vincent,
the bookkeeping of exactness degrees and the call semantics of Quadrature."""
import itertools

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel
from mc.checks.c01 import check_exact

# (name, constructor, factor dims, true exactness degree, declared?)
ATOMS = {
    "zero": (lambda: mp.ZeroDimensionalQuadrature(), (), None, True),
    "lg0": (lambda: mp.LegendreGaussQuadrature(0, force_dim_axis=True), (1,), 1, True),
    "lg1flat": (lambda: mp.LegendreGaussQuadrature(1), (1,), 3, True),
    "lg2": (lambda: mp.LegendreGaussQuadrature(2, force_dim_axis=True), (1,), 5, True),
    "lgl3": (lambda: mp.LegendreGaussLobattoQuadrature(3, force_dim_axis=True),
             (1,), 5, True),
    "cc4": (lambda: mp.ClenshawCurtisQuadrature(4, force_dim_axis=True), (1,), 4, True),
    "fejer3": (lambda: mp.FejerQuadrature(3, force_dim_axis=True), (1,), 2, False),
    "xg2": (lambda: mp.XiaoGimbutasSimplexQuadrature(2, 2), (2,), 2, True),
    "gm1": (lambda: mp.GrundmannMoellerSimplexQuadrature(1, 2), (2,), 3, True),
    "vr1tet": (lambda: mp.VioreanuRokhlinSimplexQuadrature(1, 3), (3,), 2, True),
    "wv3": (lambda: mp.WitherdenVincentQuadrature(3, 2), (1, 1), 3, True),
    "gm0d": (lambda: mp.GrundmannMoellerSimplexQuadrature(2, 0), (), None, True),
}
LONG = ["lg0", "lg2", "xg2", "lgl3"]
NEST = ["none", "tp1", "tp2"]

INTERVALS = [(-1.0, 1.0), (0.0, 1.0), (-3.0, -1.5), (2, 5), (-1e-3, 2e-3),
             (1e3, 1e3 + 4), (0.25, 7.75), (0.1, 0.7), (1e4 / 3, 1e4 / 3 + 0.7),
             (-12345.678, -12345.6)]
BAD = [(1.0, 1.0), (1.0, 0.0), (0, -2), (-1.0, -1.0)]
WV = {2: range(1, 22, 2), 3: range(1, 12, 2)}


class MODEL(GridModel):
    id = "C03"
    bounds = ("all sequences of length 0..3 (thorough: 4) over %d component rules "
              "(0-3 dimensional, declared and undeclared exactness, flat and (1, n) "
              "nodes), given as list/tuple/iterator and re-nested; all tabulated "
              "Witherden-Vincent rules; LG and LGL tensor rules N 0..6 x dims 0..4 x "
              "backends; %d intervals x rules; call semantics on scalar/vector, "
              "real/complex integrands; _Inf against all order relations"
              % (len(ATOMS), len(INTERVALS)))

    def grids(self, tier):
        names = list(ATOMS)
        maxlen = 3 if tier == "quick" else 4
        for k in range(maxlen + 1):
            yield f"tp{k}", {f"q{i}": names for i in range(k)} | {
                "container": ["list", "tuple", "iter"] if k < 3 else ["iter"],
                "nest": [False, True] if k in (2, 3) else [False]}
        yield "lgtp", {"cls": ["lg", "lgl"], "n": list(range(0, 7)),
                       "dims": [0, 1, 2, 3, 4], "backend": [None, "scipy"]}
        yield "lgtp_large", {"cls": ["lg", "lgl"], "n": [8, 10, 11, 16, 20, 25, 32],
                             "dims": [1, 2], "backend": [None]}
        yield "wv", {"dims": [0, 1, 2, 3, 4], "order": list(range(-1, 26))}
        yield "interval", {"ab": list(range(len(INTERVALS) + len(BAD))),
                           "rule": ["lg0", "lg1flat", "lg2", "lgl3", "cc4", "fejer3"],
                           "chain": [0, 1, 2]}
        yield "inf", {"other": list(range(len(OTHERS)))}
        yield "call", {"rule": list(ATOMS), "comp": [0, 1, 2, 5],
                       "kind": ["real", "complex", "int", "tiny-imag", "zero-imag",
                                "bool", "single", "mixed-scale"]}
        yield "base", {"nd": [0, 1, 2, 3, 5], "exact": [None, 0, 7]}
        # longer products: the bookkeeping does not depend on the position
        yield "long", {f"q{i}": LONG for i in range(5)} | {"more": [0, 1, 3]}

    def valid(self, name, cfg):
        if name.startswith("tp"):
            dim = sum(sum(ATOMS[cfg[k]][1]) for k in cfg if k[0] == "q")
            npts = 1
            for k in cfg:
                if k[0] == "q":
                    npts *= {"zero": 1, "gm0d": 1, "lg0": 1, "lg1flat": 2}.get(cfg[k], 4)
            return dim <= 7 and npts <= 64
        if name == "lgtp":
            return (cfg["n"] + 1) ** cfg["dims"] <= 1300
        return True

    def _tp(self, ctx, container, nest, **qs):
        names = [qs[k] for k in sorted(qs)]
        atoms = [ATOMS[n] for n in names]
        quads = [a[0]() for a in atoms]
        if nest and len(quads) >= 2:
            arg = [mp.TensorProductQuadrature(quads[:-1]), quads[-1]]
        else:
            arg = list(quads)
        parts = list(arg)
        arg = {"list": list, "tuple": tuple, "iter": iter}[container](arg)
        q = mp.TensorProductQuadrature(arg)
        dims = sum((a[1] for a in atoms), ())
        n = int(np.prod([len(p.weights) for p in quads], dtype=int))
        ctx.eq("nodes-shape", q.nodes.shape, (sum(dims), n))
        ctx.eq("weights-shape", q.weights.shape, (n,))
        ctx.eq("components", [id(p) for p in q.quadratures], [id(p) for p in parts])
        if all(a[3] for a in atoms):
            degs = [a[2] for a in atoms if a[2] is not None]
            # never claim more than is true; the documented value is the minimum
            if degs:
                ctx.eq("exact_to", q.exact_to, min(degs))
            else:
                ctx.true("exact_to-inf", q.exact_to >= 10**6)
        else:
            ctx.raises("exact_to-undefined", AttributeError, lambda: q.exact_to)
        factors = [(d, a[2]) for a in atoms for d in a[1]]
        if len(atoms) == 4:
            factors = [(d, min(N, 2)) for d, N in factors]
        if factors:
            if sum(dims) > 4:
                factors = [(d, min(N, 3)) for d, N in factors]
            check_exact(ctx, "exactness", q, factors)
        else:
            ctx.close("point", q(lambda x: np.full(x.shape[1], 2.5)), 2.5, 0)
        # node order: first component fastest, and weights aligned with nodes
        x = np.empty((sum(dims), n))
        w = np.ones(n)
        for j, t in enumerate(itertools.product(
                *(range(len(p.weights)) for p in reversed(quads)))):
            o = 0
            for p, k in zip(quads, reversed(t)):
                pn = p.nodes.reshape(-1, len(p.weights))
                x[o:o + len(pn), j] = pn[:, k]
                w[j] *= p.weights[k]
                o += len(pn)
        ctx.close("node-order", q.nodes, x, 1e-15)
        ctx.close("weight-order", q.weights, w, 1e-14)
        ctx.note((names, n))

    obs_tp0 = obs_tp1 = obs_tp2 = obs_tp3 = obs_tp4 = _tp

    def obs_long(self, ctx, more, **qs):
        names = [qs[k] for k in sorted(qs)] + ["lg0"] * more
        degs = [ATOMS[n][2] for n in names]
        q = mp.TensorProductQuadrature([ATOMS[n][0]() for n in names])
        ctx.eq("exact_to", q.exact_to, min(degs))
        ctx.eq("nodes-shape", q.nodes.shape[0], sum(sum(ATOMS[n][1]) for n in names))
        ctx.eq("weights-shape", q.weights.shape, (q.nodes.shape[1],))
        # the degree of every factor in turn, by hand
        o = 0
        for n, deg in zip(names, degs):
            for d in ATOMS[n][1]:
                k = deg - deg % 2
                if d == 1:
                    ctx.close("moment", q(lambda x: x[o]**k) * (k + 1)
                              / q.weights.sum(), 1, 1e-12)
                o += d

    def obs_lgtp(self, ctx, cls, n, dims, backend):
        if cls == "lgl" and n == 0:
            ctx.raises("lobatto-0", ValueError,
                       lambda: mp.LegendreGaussLobattoTensorProductQuadrature(n, dims))
            return
        klass = (mp.LegendreGaussTensorProductQuadrature if cls == "lg"
                 else mp.LegendreGaussLobattoTensorProductQuadrature)
        q = klass(n, dims, backend=backend)
        ctx.eq("nodes-shape", q.nodes.shape, (dims, (n + 1)**dims))
        ctx.eq("weights-shape", q.weights.shape, ((n + 1)**dims,))
        deg = 2 * n + 1 if cls == "lg" else 2 * n - 1
        if dims:
            ctx.eq("exact_to", q.exact_to, deg)
            check_exact(ctx, "exactness", q, [
                (1, deg if dims == 1 or n < 6 and dims < 3 else min(deg, 40) if dims == 2
                 else min(deg, 6))] * dims)
            fn = (mp.legendre_gauss_tensor_product_nodes if cls == "lg"
                  else mp.legendre_gauss_lobatto_tensor_product_nodes)
            if backend is None:
                ctx.close("node-fn", fn(dims, n), q.nodes, 1e-14)
        else:
            ctx.true("exact_to", q.exact_to >= 10**6)
            ctx.close("weight", q.weights, np.ones(1), 0)

    obs_lgtp_large = obs_lgtp

    def obs_wv(self, ctx, dims, order):
        if order not in WV.get(dims, ()):
            ctx.raises("unavailable", mp.QuadratureRuleUnavailable,
                       lambda: mp.WitherdenVincentQuadrature(order, dims))
            return
        q = mp.WitherdenVincentQuadrature(order, dims)
        n = len(q.weights)
        ctx.eq("shape", (q.nodes.shape, q.weights.shape), ((dims, n), (n,)))
        ctx.eq("exact_to", q.exact_to, order)
        ctx.true("inside", ref.inside((1,) * dims, q.nodes).all())
        ctx.true("positive-weights", (q.weights > 0).all())
        # P^order: the modes of total degree <= order out of Q^order
        ids = ref.tp_ids([(1, order)] * dims)
        sel = [i for i, t in enumerate(ids) if sum(t) <= order]
        got = q(lambda x: ref.tp_basis([(1, order)] * dims, x)[sel])
        want = np.zeros(len(sel))
        want[0] = 2.0**(dims / 2)
        ctx.close("exactness", got, want, 1e-11)
        for p in itertools.permutations(range(dims)):
            for s in itertools.product([1, -1], repeat=dims):
                y = q.nodes[list(p)] * np.array(s)[:, None]
                dist = np.abs(q.nodes[:, :, None] - y[:, None, :]).max(axis=0)
                m = dist.argmin(axis=0)
                ctx.true("symmetry", dist.min(axis=0).max() < 1e-12
                         and len(set(m)) == n, f"not invariant under {p} {s}")
                ctx.close("symmetric-weights", q.weights[m], q.weights, 1e-12)

    def obs_interval(self, ctx, ab, rule, chain):
        from modepy.quadrature import Transformed1DQuadrature as T
        ctor, _, deg, declared = ATOMS[rule]
        if ab >= len(INTERVALS):
            a, b = BAD[ab - len(INTERVALS)]
            ctx.raises("empty-interval", ValueError, lambda: T(ctor(), a, b))
            return
        a, b = INTERVALS[ab]
        base = ctor()
        q = T(base, a, b)
        if chain == 1:      # built from an already transformed copy of the same rule
            T(base, 5, 6)
            q = T(base, a, b)
        if chain == 2:
            q = T(base, float(a), float(b))
        ctx.eq("nodes-shape", q.nodes.shape, base.nodes.shape)
        ctx.eq("bounds", (q.left, q.right), (a, b))
        if declared:
            ctx.eq("exact_to", q.exact_to, deg)
        else:
            ctx.raises("exact_to", AttributeError, lambda: q.exact_to)
        h = (b - a) / 2
        f = lambda x: ref.jacobi_all(0, 0, deg, ((x - (a + h)) / h).reshape(-1))
        want = np.zeros(deg + 1)
        want[0] = h * 2**0.5
        ctx.close("exactness", q(f), want, 1e-10 * h * max(1, abs(a) / h))
        ctx.true("inside", ((q.nodes >= a - 1e-12) & (q.nodes <= b + 1e-12)).all())
        # cubic on the physical interval, closed form
        if deg >= 3:
            g = lambda x: x.reshape(-1)**3
            ctx.close("cubic", q(g), (float(b)**4 - float(a)**4) / 4,
                      1e-10 * max(1, abs(a), abs(b))**4)

    def obs_inf(self, ctx, other):
        from modepy.quadrature import inf, isinf
        o = OTHERS[other]
        ctx.true("isinf", isinf(inf) and not isinf(o) and not isinf(np.inf))
        ctx.eq("eq", inf == o, False)
        ctx.eq("ne", inf != o, True)
        ctx.eq("self", (inf == inf, inf >= inf, inf <= inf, inf > inf, inf < inf),
               (True, True, True, False, False))
        ctx.eq("order", (inf > o, inf >= o, inf < o, inf <= o), (True, True, False, False))
        ctx.eq("reflected", (o < inf, o <= inf, o > inf, o >= inf),
               (True, True, False, False))
        ctx.eq("min-l", min(inf, o), o)
        ctx.eq("min-r", min(o, inf), o)
        ctx.true("max", isinf(max(inf, o)) and isinf(max(o, inf)))
        ctx.true("add", isinf(inf + o))
        ctx.raises("index", (ValueError, TypeError), lambda: range(inf))

    def obs_call(self, ctx, rule, comp, kind):
        q = ATOMS[rule][0]()
        n = len(q.weights)
        seen = []

        def f(x):
            seen.append(x.shape)
            d = x.reshape(-1, n)
            s = d.sum(axis=0) + 0.5
            vals = np.array([s**k for k in range(max(comp, 1))])
            if kind == "complex":
                vals = vals + 1j * (2 * vals - 1)
            if kind == "tiny-imag":
                vals = vals + 1e-13j * (1 + vals)
            if kind == "zero-imag":
                vals = vals + 0j
            if kind == "bool":
                vals = vals > 0.75
            if kind == "single":
                vals = vals.astype(np.float32)
            if kind == "mixed-scale":
                vals = vals * 10.0**(-6 * np.arange(len(vals)))[:, None]
            if kind == "int":
                vals = np.round(vals * 10).astype(int)
            return vals if comp else vals[-1]
        got = q(f)
        vals = f(q.nodes)
        ctx.eq("argument-shape", seen[0], q.nodes.shape)
        want = (q.weights * vals).sum(axis=-1)
        ctx.eq("result-shape", np.shape(got), np.shape(want))
        ctx.eq("result-kind", np.asarray(got).dtype.kind, want.dtype.kind)
        ctx.close("result", got, want, 1e-12 * (1 + np.abs(want)))
        if kind == "tiny-imag":
            ctx.close("imaginary", np.imag(got) * 1e13, want.imag * 1e13, 1e-3)
        if kind == "mixed-scale":
            s = 1 / (np.abs(want) + 1e-300)
            ctx.close("result-relative", got * s, want * s, 1e-11)

    def obs_base(self, ctx, nd, exact):
        x = np.linspace(-1, 1, 3)
        if nd != 1:
            x = np.array([x + 0.125 * k for k in range(nd)]).reshape(nd, 3)
        q = mp.Quadrature(x, np.array([1.0, 4, 1]) / 3, exact_to=exact)
        ctx.eq("dim", q.dim, nd)
        ctx.close("nodes", q.nodes, x, 0)
        if exact is None:
            ctx.raises("exact_to", AttributeError, lambda: q.exact_to)
        else:
            ctx.eq("exact_to", q.exact_to, exact)


OTHERS = [0, 1, -1, 7, 10**9, 0.5, -2.5, 1e300, np.int64(3), np.float64(2.0), True]
