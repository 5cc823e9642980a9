"""C02: one-dimensional rules (Gauss family, Lobatto, Clenshaw-Curtis, Fejer)."""
import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel

AB = [-0.95, -0.8, -0.5, -0.25, 0, 0.3, 0.5, 1, 2, 3.7, 6]
NEAR = [-0.5, -0.5 + 1e-6, -0.5 - 1e-6, 0, 1e-6, -1e-6, 1, 1 + 1e-6, 15.5]
SPARSE = [80, 99, 100, 127, 128, 129, 160, 200, 255, 256, 257]


def endpoint_tol(a, b):
    m = min(a, b)
    t = 2e-7 if m < -0.85 else 1e-8 if m < -0.6 else 1e-10
    # the recurrence coefficients cancel near alpha + beta = -1
    return max(t, 5e-15 / abs(1 + a + b)) if a + b != -1 else t


_J = (("alpha", 0.5), ("beta", 2))
_BF = ("backend", "force_dim_axis")
# class -> (name, leading arguments, options in their documented order)
SPELL = {
    "jg": ("JacobiGaussQuadrature", _J, _BF),
    "lg": ("LegendreGaussQuadrature", (), _BF),
    "cheb": ("ChebyshevGaussQuadrature", (), ("kind", *_BF)),
    "gegen": ("GaussGegenbauerQuadrature", (("alpha", 1.5),), _BF),
    "jgl": ("JacobiGaussLobattoQuadrature", _J, _BF),
    "lgl": ("LegendreGaussLobattoQuadrature", (), _BF),
    "jgln": ("jacobi_gauss_lobatto_nodes", _J, _BF),
    "lgln": ("legendre_gauss_lobatto_nodes", (), _BF),
    "cc": ("ClenshawCurtisQuadrature", (), ("force_dim_axis",)),
    "fejer": ("FejerQuadrature", (), ("kind", "force_dim_axis")),
}


class MODEL(GridModel):
    id = "C02"
    bounds = ("alpha, beta in %s (all pairs), both backends, both axis conventions, N = "
              "0..Nmax contiguous plus {40, 63, 64, 100}; every named subclass; "
              "Clenshaw-Curtis and both Fejer kinds, N = -2..Nmax; complete polynomial "
              "basis up to the declared degree each" % AB)
    assumptions = ["linearity of integration", "the reference Jacobi recurrence is "
                   "validated against exact rationals by setup_cmd"]

    def grids(self, tier):
        q = tier == "quick"
        nn = list(range(0, 13 if q else 41)) + ([40] if q else [63, 64, 100, 150])
        yield "gauss", {"alpha": AB, "beta": AB, "backend": [None, "builtin", "scipy"],
                        "n": nn}
        # parameters near, but not at, the special cases; few large orders
        yield "gauss_near", {"alpha": NEAR, "beta": NEAR, "backend": ["builtin", "scipy"],
                             "n": [0, 1, 2, 5, 16]}
        yield "gauss_large", {"alpha": [-0.5, 0, 0.5, 1, 2.5], "beta": [-0.5, 0, 0.5, 1],
                              "backend": ["builtin"],
                              "n": [20, 30, 50, 51, 64, 65, 81, 100, 101, 128, 129, 150,
                                    200]}
        yield "lobatto_near", {"alpha": NEAR, "beta": NEAR, "backend": [None],
                               "n": [1, 2, 3, 5, 16]}
        yield "lobatto", {"alpha": AB, "beta": AB,
                          "backend": [None, "builtin", "scipy"],
                          "n": [-1] + nn}
        yield "named", {"cls": ["legendre", "GaussLegendre", "cheb1", "cheb2", "cheb3",
                                "gegen-.25", "gegen1.5", "lgl", "lglfun", "jglfun"],
                        "backend": [None, "builtin", "scipy", "nonsense"],
                        "n": nn}
        yield "cheb", {"cls": ["cc", "fejer", "fejer1", "fejer2", "fejer3"],
                       "n": [*range(-2, 66), *SPARSE] if q else list(range(-2, 260))}
        # every way to spell the same request: arguments left out, by position, by name
        yield "spelling", {"cls": list(SPELL), "n": [1, 2, 3, 8], "backend": [
            None, "builtin", "scipy"], "axis": [False, True], "kind": [1, 2],
            "form": ["by-position", "by-name", "mixed", "shortest", "reversed"]}

    def valid(self, name, cfg):
        # the second Fejer rules start with two nodes
        return name != "spelling" or cfg["cls"] != "fejer" or cfg["kind"] == 1 \
            or cfg["n"] > 1

    def obs_spelling(self, ctx, cls, n, backend, axis, kind, form):
        name, lead, opts = SPELL[cls]
        fn = getattr(mp, name, None) or getattr(mp.quadrature.jacobi_gauss, name)
        val = {"backend": backend, "force_dim_axis": axis, "kind": kind}
        kwonly = name == "JacobiGaussLobattoQuadrature" \
            or name == "LegendreGaussLobattoQuadrature"
        full = {**dict(zip([k for k, _ in lead], [v for _, v in lead])), "N": n,
                **{o: val[o] for o in opts}}
        pos = list(full.values())
        nl = len(lead) + 1
        if form == "by-position":
            got = fn(*pos) if not kwonly else fn(*pos[:nl], **{o: val[o] for o in opts})
        elif form == "by-name":
            got = fn(**full)
        elif form == "reversed":
            got = fn(**dict(reversed(full.items())))
        elif form == "mixed":
            got = fn(*pos[:nl], **{o: val[o] for o in opts})
        else:
            default = {"backend": None, "force_dim_axis": False, "kind": 1}
            got = fn(*pos[:nl], **{o: val[o] for o in opts if val[o] != default[o]})
        x = got if isinstance(got, np.ndarray) else got.nodes
        nn = {"ClenshawCurtisQuadrature": n + 1, "FejerQuadrature": n - (kind == 2)}.get(
            name, n + 1)
        if name == "FejerQuadrature" and x.shape[-1] in (n, n - 1, n + 1):
            nn = x.shape[-1]        # counted by the other grids
        ctx.eq("shape", x.shape, (1, nn) if axis else (nn,))
        a, b = {"JacobiGaussQuadrature": (0.5, 2), "GaussGegenbauerQuadrature": (1.5, 1.5),
                "ChebyshevGaussQuadrature": (kind - 1.5,) * 2}.get(name, (0, 0))
        x = x.reshape(-1)
        if name.endswith("GaussQuadrature") or name.startswith("GaussG"):
            # nodes are the roots of the orthogonal polynomial of the weight
            v = ref.jacobi_all(a, b, n + 1, x)
            ctx.close("roots", v[-1], 0 * v[-1], 1e-9 * (1 + np.abs(v).max()))
            ctx.close("attributes", [got.alpha, got.beta], [a, b], 0)
        elif "obatto" in name:
            a, b = (0.5, 2) if "acobi" in name else (0, 0)
            v = ref.jacobi_all(a + 1, b + 1, n - 1, x[1:-1])
            ctx.close("roots", v[-1], 0 * v[-1], 1e-9 * (1 + np.abs(v).max(initial=0)))
        else:
            other = fn(**full)
            ctx.close("same", x, other.nodes.reshape(-1), 0)
            t = np.arccos(x) / np.pi
            if name == "FejerQuadrature":
                m = len(x)
                ctx.close("angles", np.sort(t), (np.arange(m) + 0.5) / m if kind == 1
                          else np.arange(1, m + 1) / (m + 1), 1e-12)

    def _gauss_like(self, ctx, make, alpha, beta, n, nodes_n, exact, tol,
                    interior=True, declared=True):
        """Compare one rule, in both axis conventions, with the reference."""
        q = make(True)
        ctx.eq("nodes-shape", q.nodes.shape, (1, nodes_n))
        ctx.eq("weights-shape", q.weights.shape, (nodes_n,))
        ctx.eq("dim", q.dim, 1)
        q1 = make(False)
        ctx.eq("flat-nodes-shape", q1.nodes.shape, (nodes_n,))
        ctx.eq("flat-dim", q1.dim, 1)
        ctx.close("flat-nodes", q1.nodes, q.nodes[0], 0)
        ctx.close("flat-weights", q1.weights, q.weights, 0)
        x = q.nodes[0]
        if declared:
            ctx.eq("exact_to", q.exact_to, exact)
            ctx.eq("flat-exact_to", q1.exact_to, exact)
        if interior:
            ctx.true("inside", (np.abs(x) < 1).all(), f"nodes {x}")
        ctx.true("weights-positive", (q.weights > 0).all(), f"weights {q.weights}")
        ctx.true("distinct", len(set(x.tolist())) == nodes_n)
        if exact >= 0:
            V = ref.jacobi_all(alpha, beta, exact, x)
            want = np.zeros(exact + 1)
            want[0] = ref.jacobi_int(alpha, beta)
            got = q(lambda y: ref.jacobi_all(alpha, beta, exact, y[0]))
            sc = 1 + 10 * (np.abs(q.weights) * np.abs(V)).sum(axis=1)
            ctx.close("exactness", got, want, tol * sc)
            got = q1(lambda y: ref.jacobi_all(alpha, beta, exact, y))
            ctx.close("flat-exactness", got, want, tol * sc)
        ctx.note((nodes_n, exact))
        return q

    def obs_gauss(self, ctx, alpha, beta, backend, n):
        def make(fda):
            return mp.JacobiGaussQuadrature(alpha, beta, n, backend=backend,
                                            force_dim_axis=fda)
        if backend != "scipy" and alpha + beta == -1 and alpha != -0.5:
            # documented restriction of the builtin backend
            ctx.raises("alpha+beta=-1", ValueError, lambda: make(True), "builtin rule")
            return
        q = self._gauss_like(ctx, make, alpha, beta, n, n + 1, 2 * n + 1,
                             endpoint_tol(alpha, beta))
        ctx.true("ascending", (np.diff(q.nodes[0]) > 0).all())
        ctx.eq("alpha", (q.alpha, q.beta), (alpha, beta))

    obs_gauss_near = obs_gauss_large = obs_gauss

    def obs_lobatto(self, ctx, alpha, beta, backend, n):
        def make(fda):
            return mp.JacobiGaussLobattoQuadrature(alpha, beta, n, backend=backend,
                                                   force_dim_axis=fda)
        if n < 1:
            ctx.raises("too-few-nodes", ValueError, lambda: make(True), "Lobatto rule")
            return
        if n > 60:      # gamma() overflow guard of the formula is not claimed
            return
        q = self._gauss_like(ctx, make, alpha, beta, n, n + 1, 2 * n - 1,
                             endpoint_tol(alpha, beta), interior=False)
        x = q.nodes[0]
        ctx.true("ascending", (np.diff(x) > 0).all())
        ctx.eq("endpoints", (x[0], x[-1]), (-1.0, 1.0))
        from modepy.quadrature.jacobi_gauss import jacobi_gauss_lobatto_nodes
        for fda in (False, True):
            y = jacobi_gauss_lobatto_nodes(alpha, beta, n, backend=backend,
                                           force_dim_axis=fda)
            ctx.close("node-function", y, q.nodes if fda else x, 0)

    obs_lobatto_near = obs_lobatto

    def obs_named(self, ctx, cls, backend, n):
        from modepy.quadrature import jacobi_gauss as jg
        tab = {
            "legendre": (mp.LegendreGaussQuadrature, (), {}, 0),
            "GaussLegendre": (mp.GaussLegendreQuadrature, (), {}, 0),
            "cheb1": (mp.ChebyshevGaussQuadrature, (), {"kind": 1}, -0.5),
            "cheb2": (mp.ChebyshevGaussQuadrature, (), {"kind": 2}, 0.5),
            "cheb3": (mp.ChebyshevGaussQuadrature, (), {"kind": 3}, None),
            "gegen-.25": (mp.GaussGegenbauerQuadrature, (-0.25,), {}, -0.25),
            "gegen1.5": (mp.GaussGegenbauerQuadrature, (1.5,), {}, 1.5),
        }
        if cls in ("lgl", "lglfun", "jglfun"):
            if cls == "lgl":
                if n < 1:
                    ctx.raises("too-few", ValueError,
                               lambda: mp.LegendreGaussLobattoQuadrature(n))
                    return

                def make(fda):
                    return mp.LegendreGaussLobattoQuadrature(n, backend=backend,
                                                             force_dim_axis=fda)
                if backend == "nonsense":
                    if n > 1:
                        ctx.raises("backend", NotImplementedError, lambda: make(True))
                    return
                self._gauss_like(ctx, make, 0, 0, n, n + 1, 2 * n - 1, 1e-11,
                                 interior=False)
                return
            if backend == "nonsense":
                return

            def nodes(fda):
                if cls == "lglfun":
                    return jg.legendre_gauss_lobatto_nodes(
                        n, backend=backend, force_dim_axis=fda)
                return jg.jacobi_gauss_lobatto_nodes(
                    0.5, -0.25, n, backend=backend, force_dim_axis=fda)
            x = nodes(False)
            ctx.eq("shape", x.shape, (n + 1,))
            ctx.close("dim-axis", nodes(True), x.reshape(1, -1), 0)
            if n == 0:
                ctx.close("degenerate", x, np.zeros(1), 0)
                return
            ctx.eq("endpoints", (x[0], x[-1]), (-1.0, 1.0))
            ctx.true("ascending", (np.diff(x) > 0).all())
            if n > 1:
                # interior nodes are the roots of P_{n-1}^{(a+1,b+1)}
                a, b = (0, 0) if cls == "lglfun" else (0.5, -0.25)
                p = ref.jacobi_all(a + 1, b + 1, n - 1, x[1:-1])[-1]
                dp = ref.jacobi_all(a + 2, b + 2, n, x[1:-1])[n - 2]
                ctx.close("roots", p, np.zeros(n - 1), 1e-10 * (1 + n * np.abs(dp)))
            return
        klass, args, kw, a = tab[cls]

        def make(fda):
            return klass(*args, n, **kw, backend=backend, force_dim_axis=fda)
        if a is None:
            ctx.raises("kind", ValueError, lambda: make(True))
            return
        if backend == "nonsense":
            ctx.raises("backend", NotImplementedError, lambda: make(True))
            return
        q = self._gauss_like(ctx, make, a, a, n, n + 1, 2 * n + 1, 1e-11)
        ctx.true("ascending", (np.diff(q.nodes[0]) > 0).all())
        ctx.eq("alpha", (float(q.alpha), float(q.beta)), (float(a), float(a)))
        ctx.close("symmetric-nodes", q.nodes[0], -q.nodes[0][::-1], 1e-12)
        ctx.close("symmetric-weights", q.weights, q.weights[::-1], 1e-11)

    def obs_cheb(self, ctx, cls, n):
        if cls == "cc":
            def make(fda):
                return mp.ClenshawCurtisQuadrature(n, force_dim_axis=fda)
            if n < 1:
                ctx.raises("order", ValueError, lambda: make(True))
                return
            q = self._gauss_like(ctx, make, 0, 0, n, n + 1, n, 1e-12, interior=False)
            ctx.close("nodes", q.nodes[0], np.cos(np.pi * np.arange(n + 1) / n), 1e-14)
            # nesting
            if n <= 64:
                q2 = mp.ClenshawCurtisQuadrature(2 * n, force_dim_axis=True)
                ctx.close("nested", q2.nodes[0, ::2], q.nodes[0], 1e-14)
            return
        kw = {} if cls == "fejer" else {"kind": int(cls[-1])}
        kind = kw.get("kind", 1)

        def make(fda):
            return mp.FejerQuadrature(n, force_dim_axis=fda, **kw)
        if kind == 3:
            ctx.raises("kind", ValueError, lambda: make(True))
            return
        if n < kind:
            ctx.raises("order", ValueError, lambda: make(True))
            return
        npts = n if kind == 1 else n - 1
        q = self._gauss_like(ctx, make, 0, 0, n, npts, npts - 1, 1e-12, declared=False)
        ctx.eq("kind", q.kind, kind)
        ctx.raises("exact_to-undefined", AttributeError, lambda: q.exact_to)
        want = (np.cos((np.arange(n) + 0.5) * np.pi / n) if kind == 1
                else np.cos(np.arange(1, n) * np.pi / n))
        ctx.close("nodes", q.nodes[0], want, 1e-14)
