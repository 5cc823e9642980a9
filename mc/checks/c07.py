"""C07: quadrature construction toolbox."""
import itertools
import warnings

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel


def _memo(fn):
    last = {}

    def g(x):
        key = (x.shape, x.tobytes())
        if key not in last:
            if len(last) > 4:
                last.clear()
            last[key] = fn(x)
        return last[key]
    return g


def ref_functions(factors):
    """The reference orthonormal basis as a list of callables on (dim, n) or (n,)."""
    d = ref.factor_dim(factors)
    ev = _memo(lambda x: ref.tp_basis(factors, x.reshape(d, -1)))

    def mk(i):
        return lambda x: ev(x)[i].copy()
    return [mk(i) for i in range(ref.space_dim(factors))]


def ref_derivatives(factors):
    d = ref.factor_dim(factors)
    ev = _memo(lambda x: ref.tp_grad(factors, x.reshape(d, -1)))

    def mk(i, ax):
        return lambda x: ev(x)[ax, i].copy()
    return [[mk(i, ax) for i in range(ref.space_dim(factors))] for ax in range(d)]


FN = [lambda x: np.ones(x.shape[-1]), lambda x: x[0], lambda x: x[0]**2 - 3 * x[1],
      lambda x: np.cos(x[1])]
X = ref.generic_points((2,), 5)
# linear combinations over prefixes of FN (consistent), a permuted and a foreign basis
LCS = {
    "a1": ([2.0], [0]), "b2": ([1.0, -1.0], [0, 1]), "c3": ([0.5, 0.0, 2.0], [0, 1, 2]),
    "d4": ([0.1, 2.0, 1 / 3, 4.7], [0, 1, 2, 3]), "e0": ([], []),
    "perm": ([1.1, 5.0], [1, 0]), "tail": ([3.0], [2]),
    "cplx": ([1j, 2.0], [0, 1]),
}
PLAIN = {"f0": 0, "f3": 3}
# every sequence of basis functions up to length 3 out of FN[:3] (repeats included):
# two operands may share any prefix and differ anywhere after it
SEQS = [t for k in range(4) for t in itertools.product(range(3), repeat=k)]
for _t in SEQS:
    LCS["s" + "".join(map(str, _t))] = ([2.1, -1 / 3, 0.7][:len(_t)], list(_t))
NAMED = ["a1", "b2", "c3", "d4", "e0", "perm", "tail", "cplx"]
COEF = [[1.0, 1.0, 1.0], [0.3, -1.1, 0.7], [1j, 1.0, -2.0], [0.0, 0.0, 3.0]]


def consistent(names):
    seen = []
    for n in names:
        b = LCS[n][1]
        k = min(len(seen), len(b))
        if seen[:k] != b[:k]:
            return False
        seen = seen + b[k:]
    return True


DOMAINS = {"line": (1,), "tri": (2,), "square": (1, 1), "tet": (3,), "cube": (1, 1, 1)}


class MODEL(GridModel):
    id = "C07"
    bounds = ("linear combinations: every list of 1..3 operands out of %d combinations "
              "and %d plain functions x %d coefficient vectors, every pair (and every short "
              "triple) of function sequences of length 0..3 over 3 functions, and every second-level "
              "nesting of the flattened results (depth 3); orthogonalization and node "
              "guessing on %s for every listed order, 4 starting bases; weights and "
              "Gauss-Newton for every (domain, order, node set) listed"
              % (len(NAMED), len(PLAIN), len(COEF), list(DOMAINS)))

    def grids(self, tier):
        q = tier == "quick"
        ops = [*NAMED, *PLAIN]
        seqs = ["s" + "".join(map(str, t)) for t in SEQS]
        yield "lcseq2", {"o0": seqs, "o1": seqs, "coef": [1]}
        short = [n for n in seqs if len(n) <= (3 if q else 4)]
        yield "lcseq3", {"o0": short, "o1": short, "o2": short, "coef": [1]}
        for k in (1, 2, 3):
            yield f"lc{k}", ({f"o{i}": ops for i in range(k)}
                             | {"coef": list(range(len(COEF))),
                                "container": ["list", "tuple"]})
        yield "lcnest", {"o0": NAMED, "o1": NAMED, "o2": NAMED,
                         "coef": list(range(len(COEF))), "coef2": list(range(len(COEF)))}
        nmax = 5 if q else 8
        yield "orth", {"dom": list(DOMAINS), "N": list(range(0, nmax)),
                       "basis": ["mono", "onb-reversed", "complex", "nested"]}
        yield "guess", {"dom": ["line", "tri", "square"], "N": list(range(0, nmax + 2)),
                        "onb": ["ref", "modepy", "rotated", "unitary"]}
        yield "weights", {"dom": list(DOMAINS), "N": list(range(0, nmax)),
                          "mode": ["square", "over", "under", "mismatch-", "mismatch+",
                                   "square-scaled", "under-scaled"],
                          "flat": [False, True]}
        yield "resid", {"dom": list(DOMAINS), "N": list(range(0, 4 if q else 6)),
                        "npts": [1, 2, 3, 7], "flat": [False, True]}
        yield "newton", {"dom": ["line", "tri", "square"], "N": [1, 2, 3, 4],
                         "pert": [0, 1e-4, 1e-3], "flat": [False, True]}
        yield "badargs", {"what": ["axes", "count0", "count1"]}

    def valid(self, name, cfg):
        if cfg.get("flat") and cfg["dom"] != "line":
            return False
        if name in ("orth", "weights") and cfg["dom"] in ("tet", "cube"):
            return cfg["N"] <= 3
        if name == "guess" and cfg["dom"] == "square":
            return cfg["N"] <= 4
        if name == "resid" and cfg["dom"] in ("tet", "cube"):
            return cfg["N"] <= 2
        return True

    # -- linear combinations ------------------------------------------------
    def _mk(self, name):
        from modepy.quadrature.construction import LinearCombinationIntegrand
        if name in PLAIN:
            return FN[PLAIN[name]]
        c, b = LCS[name]
        return LinearCombinationIntegrand(np.array(c), [FN[i] for i in b])

    def _val(self, name):
        if name in PLAIN:
            return FN[PLAIN[name]](X)
        c, b = LCS[name]
        return sum((ci * FN[i](X) for ci, i in zip(c, b)), np.zeros(X.shape[1]))

    def _lc(self, ctx, coef, container="list", **ops):
        from modepy.quadrature.construction import (
            LinearCombinationIntegrand, linearly_combine)
        names = [ops[k] for k in sorted(ops)]
        fs = [self._mk(n) for n in names]
        before = [np.array(f.coefficients, copy=True) if hasattr(f, "coefficients")
                  else None for f in fs]
        c = np.array(COEF[coef][:len(fs)])
        if container == "tuple":
            fs = tuple(fs)
        r = linearly_combine(c, fs)
        want = sum(ci * self._val(n) for ci, n in zip(c, names))
        got = r(X)
        if r.functions:
            # one value per node, also where every coefficient is zero
            ctx.eq("value-shape", got.shape, want.shape)
        got = np.broadcast_to(got, want.shape)
        ctx.close("value", got, want, 1e-12 * (1 + np.abs(want)))
        ctx.true("type", isinstance(r, LinearCombinationIntegrand))
        ctx.eq("lengths", len(r.coefficients), len(r.functions))
        if all(n in LCS for n in names) and consistent(names):
            ctx.true("flattened", not any(isinstance(f, LinearCombinationIntegrand)
                                          for f in r.functions))
        for f, b in zip(fs, before):
            if b is not None:
                ctx.close("operands-unchanged", f.coefficients, b, 0)
        return r, want

    obs_lc1 = obs_lc2 = obs_lc3 = obs_lcseq2 = obs_lcseq3 = _lc

    def obs_lcnest(self, ctx, o0, o1, o2, coef, coef2):
        from modepy.quadrature.construction import linearly_combine
        r1, v1 = self._lc(ctx, coef, o0=o0, o1=o1)
        r2, v2 = self._lc(ctx, coef2, o0=o2)
        c = np.array([2.0, -3.0])
        r = linearly_combine(c, [r1, r2])
        want = 2 * v1 - 3 * v2
        ctx.close("nested-value", np.broadcast_to(r(X), want.shape), want,
                  1e-12 * (1 + np.abs(want)))
        r3 = linearly_combine(np.array([1.0, 1.0]), [r, r1])
        ctx.close("nested-value-3", np.broadcast_to(r3(X), want.shape), want + v1,
                  1e-12 * (1 + np.abs(want) + np.abs(v1)))

    # -- orthogonalization ---------------------------------------------------
    def _quad(self, dom, deg):
        dims = DOMAINS[dom]
        x, w = ref.tp_rule(dims, [deg] * len(dims))
        return x, w

    def obs_orth(self, ctx, dom, N, basis):
        from modepy.quadrature.construction import orthogonalize_basis, linearly_combine
        dims = DOMAINS[dom]
        factors = [(d, N) for d in dims]
        x, w = self._quad(dom, 2 * N + 2)
        calls = []

        def integrate(f):
            calls.append(1)
            return np.dot(w, f(x))
        n = ref.space_dim(factors)
        V = ref.tp_basis(factors, x)
        onb = ref_functions(factors)
        if basis == "mono":
            ids = ref.tp_ids(factors)
            ids = sorted(ids, key=sum)

            def mk(t):
                return lambda y: np.prod([(y[k] + 0.3)**t[k] for k in range(len(t))],
                                         axis=0)
            fs = [mk(t) for t in ids]
        elif basis == "onb-reversed":
            fs = [(lambda y, f=f: 2.0 * f(y)) for f in onb[::-1]]
        elif basis == "complex":
            fs = [(lambda y, i=i: (onb[i](y) * (1 + 1j * i)
                                   + (onb[i - 1](y) * 2j if i else 0)))
                  for i in range(n)]
        else:
            fs = [linearly_combine(np.arange(1.0, i + 2), onb[:i + 1]) for i in range(n)]
        qs = orthogonalize_basis(integrate, fs)
        ctx.eq("count", len(qs), n)
        Q = np.array([q(x) for q in qs])
        B = np.array([f(x) for f in fs])
        tol = 1e-11 + 100 * ref.EPS * ref.cond((B * w) @ B.conj().T)
        ctx.close("orthonormal", (Q * w) @ Q.conj().T, np.eye(n), tol)
        # triangular: q_i in span(b_0..b_i) and vice versa
        Bc = (B * w) @ V.T
        Qc = (Q * w) @ V.T
        T = np.linalg.lstsq(Bc.T, Qc.T, rcond=None)[0].T
        ctx.close("triangular", np.triu(T, 1), np.zeros((n, n)), tol * np.abs(T).max())
        ctx.true("nondegenerate", np.abs(np.diag(T)).min() > 1e-9)
        # evaluation elsewhere agrees with the expansion
        y = ref.generic_points(dims, 4)
        ctx.close("off-node", np.array([q(y) for q in qs]),
                  Qc @ ref.tp_basis(factors, y), 1e-8 * (1 + np.abs(Qc).max()))

    def obs_guess(self, ctx, dom, N, onb):
        from modepy.quadrature.construction import (
            adapt_2d_integrands_to_complex_arg, guess_nodes_vioreanu_rokhlin)
        dims = DOMAINS[dom]
        factors = [(d, N) for d in dims]
        x, w = self._quad(dom, 2 * N + 3)
        n = ref.space_dim(factors)
        if onb == "modepy":
            from mc.shapes import shape_of, space_of
            style = "simplex" if len(dims) == 1 else "cube"
            fs = list(mp.orthonormal_basis_for_space(
                space_of(factors, style), shape_of(dims, style)).functions)
        else:
            fs = ref_functions(factors)
        if onb == "rotated" and n > 1:
            a, b = fs[0], fs[-1]
            fs[0] = lambda y: (a(y) + b(y)) * 0.5**0.5
            fs[-1] = lambda y: (a(y) - b(y)) * 0.5**0.5
        if onb == "unitary":
            # complex-valued, orthonormal: phases after a complex rotation
            if n > 1:
                a1, b1 = fs[0], fs[-1]
                fs[0] = lambda y: (a1(y) + 1j * b1(y)) * 0.5**0.5
                fs[-1] = lambda y: (a1(y) - 1j * b1(y)) * 0.5**0.5
            fs = [(lambda y, f=f, i=i: np.exp(0.7j * i) * f(y))
                  for i, f in enumerate(fs)]
        if len(DOMAINS[dom]) == 1 and dims == (1,):
            xx = x[0]
            gs = [(lambda y, f=f: f(y.real.reshape(1, -1))) for f in fs]
            z = xx
        else:
            gs = adapt_2d_integrands_to_complex_arg(fs)
            z = x[0] + 1j * x[1]
            for f, g in zip(fs, gs):
                ctx.close("adapter", g(z), f(x), 1e-13 * (1 + np.abs(f(x))))
        nodes = guess_nodes_vioreanu_rokhlin(lambda f: np.dot(w, f(z)), gs)
        ctx.eq("shape", nodes.shape, (n,))
        if dims == (1,):
            g, _ = ref.leggauss(N + 1)
            ctx.close("gauss-nodes", np.sort(nodes.real), g, 1e-10)
            ctx.close("real", np.imag(nodes), np.zeros(n), 1e-10)
            return
        pts = np.array([nodes.real, nodes.imag])
        ctx.true("inside", ref.inside(dims, pts, 1e-8).all())
        # symmetry under the reflection x <-> y of the domain: z -> i conj(z)
        m = 1j * nodes.conj()
        dist = np.abs(nodes[:, None] - m[None, :]).min(axis=0).max()
        ctx.true("symmetric", dist < 1e-6, f"distance {dist}")
        if onb == "ref":
            self_nodes = nodes
        else:
            self_nodes = guess_nodes_vioreanu_rokhlin(
                lambda f: np.dot(w, f(z)),
                adapt_2d_integrands_to_complex_arg(ref_functions(factors)))
        dist = np.abs(nodes[:, None] - self_nodes[None, :]).min(axis=0).max()
        ctx.true("basis-independent", dist < 1e-6, f"distance {dist}")

    def obs_weights(self, ctx, dom, N, mode, flat):
        from modepy.quadrature.construction import find_weights_undetermined_coefficients
        dims = DOMAINS[dom]
        factors = [(d, N) for d in dims]
        n = ref.space_dim(factors)
        fs = ref_functions(factors)
        ints = np.zeros(n)
        ints[0] = float(ref.volume(dims))**0.5
        nodes = ref.lattice(dims, N) if N else ref.generic_points(dims, 1)
        scale = np.ones(n)
        if mode.endswith("-scaled"):
            # integrands of very different size: the same weights
            mode = mode.split("-")[0]
            scale = 10.0**(-(np.arange(n) % 8))
            fs = [(lambda y, f=f, s=s: s * f(y)) for f, s in zip(fs, scale)]
        if mode == "over":
            if n < 3:
                return
            nodes = nodes[:, :n - 2]
        if mode == "under":
            nodes = np.hstack([nodes, ref.generic_points(dims, 2)])
        if mode.startswith("mismatch"):
            bad = ints[:-1] if mode[-1] == "-" else np.append(ints, 1.0)
            ctx.raises("mismatch", ValueError,
                       lambda: find_weights_undetermined_coefficients(fs, nodes, bad))
            return
        arg = nodes[0] if flat else nodes
        V = ref.tp_basis(factors, nodes)
        ints = ints * scale
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            w = find_weights_undetermined_coefficients(fs, arg, ints)
        ctx.eq("shape", w.shape, (nodes.shape[1],))
        want = np.linalg.pinv(V, rcond=1e-13) @ (ints / scale)
        slack = (1 / scale).max()**0.5
        ctx.close("least-squares", w, want, 1e-8 * slack * (1 + np.abs(want)))
        if mode != "over":
            ctx.close("integrals", V @ w, ints / scale, 1e-9 * slack)
        else:
            ctx.close("normal-equations", V.T @ (V @ w - ints), np.zeros(len(w)), 1e-8)
        if mode == "under":
            ctx.true("warned", len(rec) > 0)

    def obs_resid(self, ctx, dom, N, npts, flat):
        from modepy.quadrature.construction import (
            quad_gauss_newton_increment, quad_residual_and_jacobian)
        dims = DOMAINS[dom]
        d = sum(dims)
        factors = [(k, N) for k in dims]
        n = ref.space_dim(factors)
        x = ref.generic_points(dims, npts)
        w = np.linspace(0.3, 1.7, npts)
        ints = np.arange(n) * 0.1 - 0.2
        arg = x[0] if flat else x
        xin, win = arg.copy(), w.copy()
        r = quad_residual_and_jacobian(arg, w, ref_functions(factors),
                                       ref_derivatives(factors), ints)
        V = ref.tp_basis(factors, x)
        G = ref.tp_grad(factors, x)
        ctx.close("residual", r.residual, V @ w - ints, 1e-11 * (1 + np.abs(V).max()))
        ctx.close("dweights", r.dresid_dweights, V, 1e-11 * (1 + np.abs(V).max()))
        J = np.hstack([G[a] * w for a in range(d)])
        ctx.close("dnodes", r.dresid_dnodes, J, 1e-10 * (1 + np.abs(J).max()))
        ctx.close("inputs", arg, xin, 0)
        ctx.close("inputs", w, win, 0)
        dw, dx = quad_gauss_newton_increment(r)
        ctx.eq("increment-shapes", (dw.shape, dx.shape), ((npts,), (d, npts)))
        full = np.hstack([V, J])
        inc = np.concatenate([dw, dx.reshape(-1)])
        res = V @ w - ints
        ctx.close("normal-equations", full.T @ (full @ inc + res),
                  np.zeros(full.shape[1]),
                  1e-7 * (1 + np.abs(full).max()**2 * (1 + np.abs(inc).max())))
        # minimum norm: orthogonal to the null space
        u, s, vt = np.linalg.svd(full, full_matrices=True)
        rank = int((s > 1e-9 * s[0]).sum())
        null = vt[rank:]
        if rank == (s > 1e-12 * s[0]).sum():
            ctx.close("minimum-norm", null @ inc, np.zeros(len(null)),
                      1e-7 * (1 + np.abs(inc).max()))

    def obs_newton(self, ctx, dom, N, pert, flat):
        from modepy.quadrature.construction import (
            quad_gauss_newton_increment, quad_residual_and_jacobian)
        dims = DOMAINS[dom]
        d = sum(dims)
        if dom == "line":
            q = mp.LegendreGaussQuadrature(N, force_dim_axis=True)
            factors = [(1, 2 * N + 1)]
        elif dom == "tri":
            q = mp.XiaoGimbutasSimplexQuadrature(N, 2)
            factors = [(2, N)]
        else:
            q = mp.LegendreGaussTensorProductQuadrature(N, 2)
            factors = [(1, 2 * N + 1)] * 2
            if N > 2:
                return
        x, w = q.nodes.copy(), q.weights.copy()
        k = np.arange(x.size).reshape(x.shape)
        x = x + pert * np.cos(3.0 * k)
        w = w * (1 + pert * np.sin(1.0 + np.arange(len(w))))
        if flat:
            x = x[0]
        n = ref.space_dim(factors)
        ints = np.zeros(n)
        ints[0] = float(ref.volume(dims))**0.5
        fs, ds = ref_functions(factors), ref_derivatives(factors)
        norms = []
        for it in range(6):
            r = quad_residual_and_jacobian(x, w, fs, ds, ints)
            norms.append(float(np.abs(r.residual).max()))
            dw, dx = quad_gauss_newton_increment(r)
            w = w + dw
            x = x + (dx[0] if flat else dx)
        ctx.true("converged", norms[-1] < 1e-11, f"residuals {norms}")
        V = ref.tp_basis(factors, x.reshape(d, -1))
        ctx.close("rule", V @ w, ints, 1e-10)

    def obs_badargs(self, ctx, what):
        from modepy.quadrature.construction import quad_residual_and_jacobian
        fs, ds = ref_functions([(2, 1)]), ref_derivatives([(2, 1)])
        x, w, ints = ref.generic_points((2,), 2), np.ones(2), np.ones(3)
        if what == "axes":
            bad = ds[:1]
        elif what == "count0":
            bad = [ds[0][:-1], ds[1]]
        else:
            bad = [ds[0], ds[1][:-1]]
        ctx.raises(what, ValueError,
                   lambda: quad_residual_and_jacobian(x, w, fs, bad, ints))
