"""C08: transplanted quadrature maps."""
import functools
import math
from fractions import Fraction

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel

RHO_STRIP = [1.11, 1.115, 1.12, 1.15, 1.2, 1.24, 1.3, 1.33, 1.333, 1.3333333, 1.4, 1.47, 1.7, 2.0, 2.718281828,
             3, 5.0, 12.0, 12.3456789, 100.0]
RHO_KTE = [1.001, 1.01, 1.1, 1.4, 2, 5.0, 30.0, 1e4]
ALPHA = [0.01, 0.3, 0.5, 0.9, 0.999]
DEGREES = [1, 3, 5, 7, 9, 11, 15, 21]


def ref_sausage(s, degree):
    c = [Fraction(math.comb(2 * k, k), 4**k * (2 * k + 1))
         for k in range((degree + 1) // 2)]
    tot = sum(c)
    c = [float(v / tot) for v in c]
    return (sum(v * s**(2 * k + 1) for k, v in enumerate(c)),
            sum(v * (2 * k + 1) * s**(2 * k) for k, v in enumerate(c)))


def ref_kte(s, alpha):
    d = math.asin(alpha)
    return (np.arcsin(alpha * s) / d,
            alpha / d / np.sqrt((1 - alpha * s) * (1 + alpha * s)))


def ref_strip(s, rho):
    """Fourier series of the strip map in theta = arcsin(s)."""
    L = math.log(rho)
    nt = int(45 / (2 * L)) + 3
    n = np.arange(nt)
    odd = 2 * n + 1
    with np.errstate(over="ignore"):
        c = (-1.0)**n / (odd * np.sinh(odd * L))
    th = np.arcsin(s)
    S = (c[:, None] * np.sin(odd[:, None] * th)).sum(axis=0)
    dS = ((c * odd)[:, None] * np.cos(odd[:, None] * th)).sum(axis=0)
    one = (c * np.sin(odd * math.pi / 2)).sum()
    return S / one, dS / np.sqrt(1 - s * s) / one


def rule(name, n, fda):
    if name == "lg":
        return mp.LegendreGaussQuadrature(n, force_dim_axis=fda)
    if name == "lgscipy":
        return mp.LegendreGaussQuadrature(n, backend="scipy", force_dim_axis=fda)
    if name == "lgl":
        return mp.LegendreGaussLobattoQuadrature(n + 1, force_dim_axis=fda)
    if name == "cc":
        return mp.ClenshawCurtisQuadrature(n + 1, force_dim_axis=fda)
    return mp.FejerQuadrature(n + 1, force_dim_axis=fda)


MAPS = ([("identity", None)] + [("sausage", d) for d in DEGREES]
        + [("kte-rho", r) for r in RHO_KTE] + [("kte-alpha", a) for a in ALPHA]
        + [("kte-both", a) for a in ALPHA] + [("kte-default", 1.4)]
        + [("strip", r) for r in RHO_STRIP] + [("strip-default", 1.4)])


def strip_tol(kind, p):
    if not kind.startswith("strip") or p >= 1.25:
        return 1e-9
    return 1e-6 if p >= 1.2 else 1e-4


def get_map(kind, p):
    import modepy.quadrature.transplanted as t
    if kind == "identity":
        return t.map_identity, lambda s: (s + 0.0, np.ones_like(s))
    if kind == "sausage":
        return (functools.partial(t.map_sausage, degree=p),
                lambda s: ref_sausage(s, p))
    if kind == "kte-rho":
        return (functools.partial(t.map_kosloff_tal_ezer, rho=p),
                lambda s: ref_kte(s, 2 / (p + 1 / p)))
    if kind == "kte-default":
        return t.map_kosloff_tal_ezer, lambda s: ref_kte(s, 2 / (p + 1 / p))
    if kind == "kte-alpha":
        return (functools.partial(t.map_kosloff_tal_ezer, alpha=p),
                lambda s: ref_kte(s, p))
    if kind == "kte-both":      # alpha wins over rho
        return (functools.partial(t.map_kosloff_tal_ezer, alpha=p, rho=7.0),
                lambda s: ref_kte(s, p))
    if kind == "strip":
        return functools.partial(t.map_strip, rho=p), lambda s: ref_strip(s, p)
    return t.map_strip, lambda s: ref_strip(s, p)


CUSTOM = {
    "turned": (lambda t: -t, lambda t: -1.0 + 0 * t),
    "fold": (lambda t: 1.5 * t**3 - 0.5 * t, lambda t: 4.5 * t**2 - 0.5),
    "half": (lambda t: 0.5 * t + 0.5, lambda t: 0.5 + 0 * t),
    "skew": (lambda t: (2 + t)**2 / 4 - 1.25, lambda t: (2 + t) / 2),
    "same": (lambda t: t + 0.0, lambda t: 1.0 + 0 * t),
}


class MODEL(GridModel):
    id = "C08"
    bounds = ("%d maps (identity, sausage degrees %s, KTE rho %s / alpha %s, strip rho "
              "%s) x base rules x n x axis conventions; %d further changes of variable, some of them not monotone; all ordered pairs of strip "
              "parameters; 20-parameter histories overflowing the parameter cache; "
              "invalid parameters" % (len(MAPS), DEGREES, RHO_KTE, ALPHA, RHO_STRIP, len(CUSTOM)))
    assumptions = ["strip reference: Fourier series of the conformal map, independent "
                   "of elliptic functions"]

    def grids(self, tier):
        q = tier == "quick"
        yield "map", {"m": list(range(len(MAPS))), "grid": [0, 1, 2, 3]}
        yield "rule", {"m": list(range(len(MAPS))),
                       "base": ["lg", "lgscipy", "lgl", "cc", "fejer"],
                       "n": list(range(0, 9 if q else 24)) + [40],
                       "fda": [False, True]}
        yield "lgrule", {"m": list(range(len(MAPS))), "n": [0, 1, 4, 9],
                         "backend": [None, "builtin", "scipy"], "fda": [False, True]}
        yield "limit", {"m": list(range(len(MAPS))), "n": [90, 140]}
        yield "custom", {"g": list(CUSTOM), "base": ["lg", "lgscipy", "lgl", "cc", "fejer"],
                         "n": [0, 1, 2, 5, 11, 24], "fda": [False, True]}
        yield "pairs", {"a": RHO_STRIP, "b": RHO_STRIP, "warm": [0, 20]}
        yield "stripedge", {"rho": [1.01, 1.05, 1.1, 1e4]}
        yield "bad", {"which": list(range(len(BAD)))}

    def obs_map(self, ctx, m, grid):
        kind, p = MAPS[m]
        fn, rf = get_map(kind, p)
        if grid == 3 and kind.startswith("strip"):
            s = np.array([-1 + 1e-9, 1 - 1e-9])
        else:
            s = [np.linspace(-0.97, 0.97, 41), np.array([0.0]),
                 np.array([-1 + 1e-6, 1 - 1e-6]), np.array([-1.0, 1.0])][grid]
        sin = s.copy()
        g, gp = fn(s)
        rg, rgp = rf(s)
        tol = strip_tol(kind, p)
        ctx.close("nodes", g, rg, tol)
        ctx.close("jacobian", gp, rgp, tol * (1 + np.abs(rgp)) * (10 if grid else 1))
        ctx.close("input-unchanged", s, sin, 0)
        ctx.true("fresh", not np.shares_memory(g, s) and not np.shares_memory(gp, s))
        g2, gp2 = fn(-s)
        ctx.close("odd", g2, -g, 1e-12)
        ctx.close("even-jacobian", gp2, gp, 1e-12 * (1 + np.abs(gp)))
        if grid == 0:
            ctx.true("increasing", (np.diff(g) > 0).all() and (gp > 0).all())
            ctx.true("into", (np.abs(g) < 1).all())
        if grid == 3:
            if kind.startswith("strip"):
                ctx.close("endpoints", g, np.sign(s), 1e-3)
            else:
                ctx.close("endpoints", g, np.sign(s), 1e-14)

    def obs_rule(self, ctx, m, base, n, fda):
        kind, p = MAPS[m]
        fn, rf = get_map(kind, p)
        q = rule(base, n, fda)
        x0, w0 = q.nodes.copy(), q.weights.copy()
        if kind.startswith("strip") and base in ("lgl", "cc"):
            ctx.raises("endpoints", ValueError,
                       lambda: mp.transplanted_1d_quadrature(q, fn))
            return
        r = mp.transplanted_1d_quadrature(q, fn)
        ctx.eq("shape", (r.nodes.shape, r.weights.shape), (q.nodes.shape, q.weights.shape))
        tol = strip_tol(kind, p)
        g, gp = rf(x0.reshape(-1))
        ctx.close("nodes", r.nodes.reshape(-1), g, tol)
        ctx.close("weights", r.weights, w0 * gp, tol * (1 + gp))
        ctx.close("base-unchanged", q.nodes, x0, 0)
        ctx.close("base-unchanged", q.weights, w0, 0)
        ctx.true("fresh", not np.shares_memory(r.nodes, q.nodes))
        if kind == "identity" and base != "fejer":
            ctx.eq("exact_to", r.exact_to, q.exact_to)
        else:
            ctx.raises("exact_to", AttributeError, lambda: r.exact_to)
        deg = {"lg": 2 * n + 1, "lgscipy": 2 * n + 1, "lgl": 2 * n + 1, "cc": n + 1,
               "fejer": n}[base]
        if kind in ("sausage", "identity"):
            d = p or 1
            # f(g) g' is a polynomial of degree k d + d - 1
            k = (deg - d + 1) // d
            if k >= 0:
                V = ref.jacobi_all(0, 0, k, r.nodes.reshape(-1))
                want = np.zeros(k + 1)
                want[0] = 2**0.5
                got = r(lambda y: ref.jacobi_all(0, 0, k, y.reshape(-1)))
                ctx.close("exactness", got, want, 1e-11 * (1 + np.abs(V).max()))

    def obs_custom(self, ctx, g, base, n, fda):
        """Any change of variable: its nodes, and its jacobian whatever the sign."""
        gf, gpf = CUSTOM[g]
        q = rule(base, n, fda)
        s = q.nodes.reshape(-1).copy()
        r = mp.transplanted_1d_quadrature(q, lambda t: (gf(t), gpf(t)))
        ctx.eq("shape", (r.nodes.shape, r.weights.shape, r.dim),
               (q.nodes.shape, q.weights.shape, 1))
        ctx.close("nodes", r.nodes.reshape(-1), gf(s), 1e-14)
        ctx.close("weights", r.weights, q.weights * gpf(s), 1e-14)
        ctx.raises("exact_to", AttributeError, lambda: r.exact_to)
        if base == "lg" and n == 24:
            ctx.close("integral", r(lambda y: np.cos(y.reshape(-1))),
                      math.sin(gf(1.0)) - math.sin(gf(-1.0)), 1e-11)
            r2 = mp.transplanted_1d_quadrature(r, lambda t: (t**3, 3 * t**2))
            x = gf(s)
            ctx.close("twice", r2.nodes.reshape(-1), x**3, 1e-13)
            ctx.close("twice", r2.weights, q.weights * gpf(s) * 3 * x**2, 1e-13)

    def obs_lgrule(self, ctx, m, n, backend, fda):
        fn, rf = get_map(*MAPS[m])
        r = mp.transplanted_legendre_gauss_quadrature(n, fn, backend=backend,
                                                      force_dim_axis=fda)
        ctx.eq("shape", r.nodes.shape, (1, n + 1) if fda else (n + 1,))
        kw = {k: v for k, v in (("backend", backend), ("force_dim_axis", fda)) if v}
        s = mp.transplanted_legendre_gauss_quadrature(map_fn=fn, n=n, **kw)
        ctx.eq("shape-default", s.nodes.shape, r.nodes.shape)
        ctx.close("nodes-default", s.nodes, r.nodes, 0)
        x, w = ref.leggauss(n + 1)
        g, gp = rf(x)
        tol = strip_tol(*MAPS[m])
        ctx.close("nodes", r.nodes.reshape(-1), g, tol)
        ctx.close("weights", r.weights, w * gp, tol * (1 + gp))

    def obs_limit(self, ctx, m, n):
        kind, p = MAPS[m]
        fn, rf = get_map(kind, p)
        # analyticity width of the map decides the rate
        # Bernstein ellipse of analyticity of the integrand
        rr = 1.2
        if kind in ("kte-rho", "kte-default"):
            rr = p
        elif kind.startswith("kte"):
            rr = (1 + math.sqrt(1 - p * p)) / p
        elif kind.startswith("strip"):
            rr = p
        tol = max(strip_tol(kind, p), 200 * rr**(-2 * n))
        if tol > 1e-3:
            tol = 0.3
        r = mp.transplanted_legendre_gauss_quadrature(n, fn, force_dim_axis=True)
        V = ref.jacobi_all(0, 0, 6, r.nodes[0])
        want = np.zeros(7)
        want[0] = 2**0.5
        ctx.close("integral", V @ r.weights, want, tol)

    def obs_pairs(self, ctx, a, b, warm):
        import modepy.quadrature.transplanted as t
        s = np.linspace(-0.9, 0.9, 5)
        for k in range(warm):
            t.map_strip(s, rho=1.5 + 0.1 * k)
        for r in (a, b, a):
            g, gp = t.map_strip(s, rho=r)
            rg, rgp = ref_strip(s, r)
            tol = strip_tol("strip", r)
            ctx.close("nodes", g, rg, tol)
            ctx.close("jacobian", gp, rgp, tol * 10)

    def obs_stripedge(self, ctx, rho):
        import modepy.quadrature.transplanted as t
        s = np.linspace(-0.97, 0.97, 41)
        ctx.nobs += 1
        rg, rgp = ref_strip(s, rho)
        try:
            g, gp = t.map_strip(s, rho=rho)
        except Exception as e:
            ctx.fail("strip-map", f"{type(e).__name__}: {e}")
            return
        err = max(np.abs(g - rg).max(), (np.abs(gp - rgp) / (1 + rgp)).max())
        if not err < 1e-4:
            ctx.fail("strip-map", f"map and jacobian deviate by {err:.3g}")

    def obs_bad(self, ctx, which):
        import modepy.quadrature.transplanted as t
        kind, arg = BAD[which]
        s = np.array([-0.5, 0.5])
        if kind == "sausage":
            ctx.raises("degree", ValueError, lambda: t.map_sausage(s, arg))
        elif kind == "kte-rho":
            ctx.raises("rho", ValueError, lambda: t.map_kosloff_tal_ezer(s, rho=arg))
        elif kind == "kte-alpha":
            ctx.raises("alpha", ValueError, lambda: t.map_kosloff_tal_ezer(s, alpha=arg))
        elif kind == "strip":
            ctx.raises("rho", ValueError, lambda: t.map_strip(s, rho=arg))
        elif kind == "strip-s":
            ctx.raises("endpoint", ValueError, lambda: t.map_strip(np.array(arg)))
        else:
            q = arg()
            ctx.raises("dimension", ValueError,
                       lambda: mp.transplanted_1d_quadrature(q, t.map_identity))


BAD = ([("sausage", d) for d in (0, -1, 2, 4, 10, -3)]
       + [("kte-rho", r) for r in (1.0, 0.5, 0, -2.0)]
       + [("kte-alpha", a) for a in (0.0, 1.0, -0.5, 1.5, math.nan, math.inf)]
       + [("strip", r) for r in (1.0, 0.9, 0, -1.4)]
       + [("strip-s", v) for v in ([1.0], [0.0, -1.0], [0.5, 1.5], [-1.0, 0.3])]
       + [("dim", lambda: mp.XiaoGimbutasSimplexQuadrature(2, 2)),
          ("dim", lambda: mp.LegendreGaussTensorProductQuadrature(1, 2)),
          ("dim", lambda: mp.ZeroDimensionalQuadrature())])
