"""C17: Vandermonde matrices and resampling operators."""
import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.engine import GridModel

def complex_basis(fns):
    """A complex basis of the same space: f_i + i f_(i+1)/2."""
    n = len(fns)
    return [lambda x, i=i: fns[i](x) + 0.5j * fns[(i + 1) % n](x) for i in range(n)]


NODES = ["eq", "ec", "gauss", "perm", "finer", "coarser", "single", "vertices"]
FNS = ["one", "real", "cplx", "f32", "int", "big"]


def fn_of(name, k):
    return {
        "one": lambda x: np.ones(x.shape[1]) * (k + 1),
        "real": lambda x: np.sin((k + 1) * x[0]) + x.sum(axis=0),
        "cplx": lambda x: np.exp(1j * (k + 1) * x[0]),
        "f32": lambda x: (x[0] * (k + 1)).astype(np.float32),
        "int": lambda x: np.arange(x.shape[1]) + k,
        "big": lambda x: 1e12 * x[0] + k,
    }[name]


def node_set(factors, which):
    space, shape = spaces.build(factors)
    dims = [d for d, _ in factors]
    if which == "eq":
        return mp.equispaced_nodes_for_space(space, shape)
    if which == "ec":
        return mp.edge_clustered_nodes_for_space(space, shape)
    if which == "perm":
        x = mp.edge_clustered_nodes_for_space(space, shape)
        return x[:, ::-1]
    if which == "gauss":
        return ref.tp_rule(dims, [n for _, n in factors])[0]
    if which in ("finer", "coarser"):
        s = 2 if which == "finer" else -1
        f2 = [(d, max(n + s, 0)) for d, n in factors]
        return mp.edge_clustered_nodes_for_space(*spaces.build(f2))
    if which == "single":
        return ref.generic_points(dims, 1)
    return ref.vertices(dims).T.copy()


class MODEL(GridModel):
    id = "C17"
    bounds = ("every P^n (dims 0..3) and every supported product below; every ordered "
              "pair out of %d node sets; orthonormal and monomial basis; square and "
              "least-squares systems; all sequences of 0..3 functions out of %d kinds "
              "(real, complex, single precision, integer) x node layouts"
              % (len(NODES), len(FNS)))
    assumptions = ["a linear operator on P is decided by its values on a basis of P"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {0: 1, 1: 10, 2: 6 if q else 9, 3: 4 if q else 6},
            {2: [0, 1, 3] if q else [0, 1, 2, 3, 4], 3: [0, 1] if q else [0, 1, 2]},
            zero=True, max_dim=4, max_size=120 if q else 200)
        # a few spaces of larger order
        self.fl += [((1, 15),), ((1, 24),), ((2, 10),), ((3, 7),), ((1, 8), (1, 7)), ((2, 4), (1, 5))]
        yield "resample", {"f": list(range(len(self.fl))), "old": NODES, "new": NODES,
                           "kind": ["onb", "monomial"]}
        yield "vdm", {"f": list(range(len(self.fl))), "nodes": NODES,
                      "kind": ["onb", "monomial", "default"]}
        # spaces which are not the complexification of a real one
        yield "trig", {"d": [1, 2, 3], "n": [1, 2, 3, 5, 8], "more": [0, 1, 4],
                       "new": [0, 1, 6], "shift": [0, 1, 2, 5]}
        for k in range(4):
            yield f"fns{k}", ({f"g{i}": FNS for i in range(k)}
                              | {"nn": [0, 1, 2, 5], "lay": ["C", "F", "strided"]})
        yield "multi", {"n": [1, 2, 3], "comp": [1, 2, 3], "nn": [0, 1, 4],
                        "seq": ["tuple", "list", "array"], "dt": ["f8", "c16", "perfun", "percomp",
                                                            "both"]}

    def describe(self, state):
        name, cfg = self.config(state)
        if "f" in cfg:
            return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}
        return {"grid": name, **cfg}

    def obs_resample(self, ctx, f, old, new, kind):
        factors = self.fl[f]
        dims = [d for d, _ in factors]
        xo, xn = node_set(factors, old), node_set(factors, new)
        fns = spaces.basis_of(kind, factors).functions
        n = len(fns)
        Vo, Vn = ref.tp_basis(factors, xo).T, ref.tp_basis(factors, xn).T
        c = ref.cond(Vo) if sum(dims) else 1.0
        if kind == "monomial":
            try:
                c = max(c, ref.cond(np.array([np.broadcast_to(g(xo), xo.shape[1:])
                                              for g in fns]).T))
            except Exception:
                pass
        if not c < 1e9 and xo.shape[1] >= n:
            return      # not a unisolvent old node set: nothing is promised
        xo0, xn0 = xo.copy(), xn.copy()
        if xo.shape[1] != n:
            ctx.raises("not-square", RuntimeError,
                       lambda: mp.resampling_matrix(fns, xn, xo))
            R = mp.resampling_matrix(fns, xn, xo, least_squares_ok=True)
            if xo.shape[1] < n:
                if sum(dims):
                    # minimum-norm solution: interpolates the data it was given
                    if new == old and np.linalg.matrix_rank(Vo) == xo.shape[1] \
                            and c < 1e9:
                        ctx.close("interpolates", R @ np.eye(xo.shape[1]),
                                  np.eye(xo.shape[1]), 1e-7)
                return
        else:
            R = mp.resampling_matrix(fns, xn, xo)
            # the operator belongs to the space, over whichever basis (of whichever
            # field) it is computed
            cf = complex_basis(fns) if new == "finer" else [
                lambda x, g=g, k=k: (1j if k else 1) * g(x) for k, g in enumerate(fns)] \
                if new == "single" else None
            if cf:
                Rc = mp.resampling_matrix(cf, xn, xo)
                ctx.close("complex-basis", Rc, R, 1e-11 * c * (1 + np.abs(R).max()))
            R2 = mp.resampling_matrix(fns, xn, xo, least_squares_ok=True)
            ctx.close("same", R2, R, 1e-12 * c * (1 + np.abs(R).max()))
        ctx.eq("shape", R.shape, (xn.shape[1], xo.shape[1]))
        tol = 1e-13 * (c + 10) * n * (1 + np.abs(Vn).max())
        ctx.close("reproduces", R @ Vo, Vn, tol, "a member of the space is not "
                  "resampled exactly")
        if xo.shape[1] > n:
            # least squares: R = Vn pinv(Vo), the reference projection
            want = Vn @ np.linalg.pinv(Vo)
            ctx.close("least-squares", R, want, tol * (1 + np.abs(want).max())) \
                if kind == "onb" or c < 1e4 else None
        if old == new and xo.shape[1] == n:
            ctx.close("identity", R, np.eye(n), 1e-12 * (c + 10))
        if old == new:
            # one array object in both roles is as good as two equal ones
            if xo.shape[1] != n:
                ctx.raises("not-square", RuntimeError,
                           lambda: mp.resampling_matrix(fns, xo, xo))
            R1 = mp.resampling_matrix(fns, xo, xo, least_squares_ok=True)
            ctx.close("same-object", R1, R, 1e-12 * c * (1 + np.abs(R).max()))
            # a node set close to the old one is not the old one
            for h in (3e-6, 1e-8):
                v = ref.vertices(dims).T.mean(axis=1, keepdims=True)
                x2 = xo + h * (v - xo)      # stays inside: the basis' domain
                V2 = ref.tp_basis(factors, x2).T
                R2 = mp.resampling_matrix(fns, x2, xo, least_squares_ok=True)
                ctx.close("nearby", R2 @ Vo, V2, tol)
        ctx.close("input-unchanged", xo, xo0, 0)
        ctx.close("input-unchanged", xn, xn0, 0)

    def obs_trig(self, ctx, d, n, more, new, shift):
        """Plane waves: the operators are complex."""
        w = np.array([0.9, 0.31, -0.27])[:d]
        fns = [lambda x, k=k: np.exp(1j * (k - shift) * np.tensordot(w, x, 1))
               for k in range(n)]
        ders = [[lambda x, k=k, a=a: 1j * (k - shift) * w[a] * fns[k](x)
                 for k in range(n)] for a in range(d)]
        xo = ref.generic_points((1,) * d, n + more)
        xo[0] = np.linspace(-0.97, 1, n + more)
        xn = 0.9 * ref.generic_points((1,) * d, new)
        E = lambda x: np.exp(1j * np.outer(w @ x, np.arange(n) - shift))
        V, W = E(xo), E(xn)
        c = np.linalg.cond(V)
        ctx.close("vandermonde", mp.vandermonde(fns, xo), V, 1e-13)
        if c > 1e6:
            return
        tol = 1e-12 * c * (1 + n)
        R = mp.resampling_matrix(fns, xn, xo, least_squares_ok=bool(more))
        ctx.eq("shape", R.shape, (new, n + more))
        ctx.close("reproduces", R @ V, W, tol)
        ctx.close("least-squares", R, W @ np.linalg.pinv(V), tol)
        if more:
            return
        for a in range(d):
            grads = [lambda x, k=k: tuple(ders[b][k](x) for b in range(d))
                     for k in range(n)]
            f = 1j * (np.arange(n) - shift) * w[a]
            for at, U in ((xo, V), (xn, W)):
                D = mp.differentiation_matrices(fns, grads, at, from_nodes=xo)
                ctx.close("differentiates", D[a] @ V, U * f, tol * (1 + n))
            D = mp.differentiation_matrices(fns, grads, xo)
            ctx.close("differentiates", D[a] @ V, V * f, tol * (1 + n))

    def obs_vdm(self, ctx, f, nodes, kind):
        factors = self.fl[f]
        b = spaces.basis_of(kind, factors)
        x = node_set(factors, nodes)
        V = mp.vandermonde(b.functions, x)
        n, N = len(b.functions), x.shape[1]
        ctx.eq("shape", V.shape, (N, n))
        # column j belongs to function j, row i to node i -- one point at a time
        for i in {0, N // 2, N - 1}:
            for j in {0, n // 2, n - 1}:
                w = b.functions[j](x[:, i:i + 1])
                ctx.close("entry", V[i, j], np.broadcast_to(w, (1,))[0],
                          1e-12 * (1 + np.abs(w).max()))
        if sum(d for d, _ in factors):
            C, _, _ = spaces.coefficients(b.functions, factors)
            want = ref.tp_basis(factors, x).T @ C.T
            ctx.close("matrix", V, want, 1e-9 * (1 + np.abs(want).max()))
        if all(d for d, _ in factors):
            D = sum(d for d, _ in factors)
            mv = mp.multi_vandermonde(b.gradients, x)
            ctx.eq("gradients", (len(mv), mv[0].shape), (D, (N, n)))
            want = np.einsum("fm,dmp->dpf", C, ref.tp_grad(factors, x))
            for k in range(D):
                ctx.close("gradient", mv[k], want[k], 1e-8 * (1 + np.abs(want).max()))
                ctx.close("derivatives", mp.vandermonde(b.derivatives(k), x), mv[k],
                          1e-10 * (1 + np.abs(want).max()))

    def _fns(self, ctx, nn, lay, **kw):
        g = list(kw.values())
        fns = [fn_of(a, k) for k, a in enumerate(g)]
        x = np.linspace(-1, 1, 2 * nn).reshape(2, nn)
        if lay == "F":
            x = np.asfortranarray(x)
        elif lay == "strided":
            big = np.zeros((4, 3 * nn))
            big[::2, ::3] = x
            x = big[::2, ::3]
        for seq in (fns, tuple(fns)):
            V = mp.vandermonde(seq, x)
            ctx.eq("shape", V.shape, (nn, len(g)))
            if V.shape != (nn, len(g)):
                return
            cols = [f(x) for f in fns]
            if cols:
                ctx.eq("dtype", V.dtype, np.result_type(*cols))
            for j, c in enumerate(cols):
                ctx.close("column", V[:, j], c.astype(V.dtype), 0)

    obs_fns0 = obs_fns1 = obs_fns2 = obs_fns3 = _fns

    def obs_multi(self, ctx, n, comp, nn, seq, dt):
        x = np.linspace(-1, 1, 2 * nn).reshape(2, nn)
        Z = [np.float64(1), np.complex128(1j), np.float32(1)]

        def scale(k, c):
            return Z[{"f8": 0, "c16": 1, "perfun": k % 3, "percomp": c % 2,
                      "both": (k + c) % 3}[dt]]

        def mk(k):
            def f(x):
                v = [((np.cos((k + 1) * x[0]) + 10 * c)).astype(
                    np.result_type(scale(k, c).dtype, np.float32)) * scale(k, c)
                    for c in range(comp)]
                return {"tuple": tuple, "list": list, "array": np.array}[seq](v)
            return f
        fns = [mk(k) for k in range(n)]
        got = mp.multi_vandermonde(fns, x)
        ctx.eq("len", len(got), comp)
        for c in range(comp):
            want = np.array([fns[k](x)[c] for k in range(n)]).T
            ctx.close("component", got[c], want, 0)
            if seq == "tuple":
                # deprecated: the matrices of tuple-valued functions, or a refusal
                try:
                    old = mp.vandermonde(fns, x)
                except (TypeError, ValueError):
                    pass
                else:
                    ctx.eq("old len", len(old), comp)
                    ctx.close("old component", old[c], want, 0)
            if seq != "array" and nn:
                ctx.eq("component dtype", got[c].dtype, want.dtype)
        ctx.raises("empty", ValueError, lambda: mp.multi_vandermonde([], x))
