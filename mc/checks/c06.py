"""C06: adaptive quadgk over every breakpoint sequence / environment answer."""
import cmath
import functools
import itertools
import math

import numpy as np

from mc.engine import GridModel

INF = math.inf
# name: (f, antiderivative, allowed breakpoints, decays)
erf = math.erf
FUNCS = {
    "one": (lambda x: 1.0, lambda x: x, False),
    "x": (lambda x: x, lambda x: x * x / 2, False),
    "poly5": (lambda x: 6 * x**5 - 4 * x**3 + 1, lambda x: x**6 - x**4 + x, False),
    "cos": (lambda x: math.cos(3 * x), lambda x: math.sin(3 * x) / 3, False),
    "cexp": (lambda x: cmath.exp(1j * x), lambda x: -1j * cmath.exp(1j * x), False),
    "runge": (lambda x: 1 / (1 + x * x), lambda x: math.atan(x), True),
    "gauss": (lambda x: math.exp(-x * x) if abs(x) < 1e4 else 0.0,
              lambda x: math.sqrt(math.pi) / 2 * erf(x), True),
    "crunge": (lambda x: (1 + 2j) / (1 + x * x), lambda x: (1 + 2j) * math.atan(x),
               True),
    "npgauss": (lambda x: np.exp(-(np.minimum(abs(x), 1e100) - 0.5)**2)
                if x > 0 else np.exp(-(np.maximum(x, -1e100) - 0.5)**2),
                lambda x: math.sqrt(math.pi) / 2 * erf(x - 0.5), True),
}
FINITE = [-2.0, -0.5, 0, 1.0, 3]
SING = {
    "sqrt": (lambda x: math.sqrt(abs(x)), lambda x: math.copysign(abs(x)**1.5, x) / 1.5),
    "isqrt": (lambda x: 1 / math.sqrt(abs(x)),
              lambda x: math.copysign(2 * math.sqrt(abs(x)), x)),
    "log": (lambda x: math.log(abs(x)), lambda x: x * math.log(abs(x)) - x if x else 0.0),
    "abs": (lambda x: abs(x), lambda x: x * abs(x) / 2),
    "peak": (lambda x: 1e-3 / (1e-6 + (x - 0.3)**2), lambda x: math.atan((x - .3) / 1e-3)),
    "step": (lambda x: 1.0 if x > 0.3 else 0.0, lambda x: max(x - 0.3, 0.0)),
}
CPTS = [1 + 0j, 1j, -1 + 0j, -1j, 2 + 1j]


def monotone(p):
    return all(a < b for a, b in zip(p, p[1:])) or all(a > b for a, b in zip(p, p[1:]))


def sequences(maxlen):
    out = []
    for k in range(2, maxlen + 1):
        out += list(itertools.product(FINITE, repeat=k))
    pts = [-INF, *FINITE, INF]
    for k in range(2, maxlen + 2):
        for c in itertools.combinations(pts, k):
            if INF in c or -INF in c:
                out.append(c)
                out.append(c[::-1])
    return out


TYPES = ["int", "float", "float64", "float32", "float16", "longdouble", "int64", "int32",
         "int8", "uint8"]


JUMPS = [(-INF, 0.3, INF), (-INF, -1.1, 0.7, INF), (-INF, -2.3, 0.4), (0.7, 1.9, INF),
         (-INF, -3.3, -1.7, -0.1), (0.1, 1.3, 7.7, INF), (-1.0, 0.3, 2.0),
         (-INF, -30.0, 30.0, INF), (-1.0, 0.0, 100.0, INF)]


@functools.lru_cache
def gk_rule(order):
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    q = make_kronrod_quadrature(order)
    return (q.gauss_quadrature.nodes, q.gauss_quadrature.weights,
            q.weights_at_gauss_nodes, q.nodes, q.weights)


def greedy(fn, pts, order, reltol, maxevals):
    """Number of evaluations of the adaptive rule that bisects the worst segment."""
    xg, wg, wk, xk, vk = gk_rule(order)

    def seg(a, b):
        h, c = (b - a) / 2, (a + b) / 2
        fg = [fn(c + h * x) for x in xg]
        k = h * (np.dot(wk, fg) + np.dot(vk, [fn(c + h * x) for x in xk]))
        return abs(k - h * np.dot(wg, fg)), a, b, k
    open_ = [seg(a, b) for a, b in zip(pts, pts[1:])]
    n = (2 * order + 1) * len(open_)
    while n < maxevals:
        if sum(s[0] for s in open_) <= reltol * abs(sum(s[3] for s in open_)):
            break
        w = max(open_)
        open_.remove(w)
        open_ += [seg(w[1], (w[1] + w[2]) / 2), seg((w[1] + w[2]) / 2, w[2])]
        n += 4 * order + 2
    return n


class Bang(Exception):
    pass


class MODEL(GridModel):
    id = "C06"
    bounds = ("%d smooth integrands x all breakpoint sequences of length 2..3 (thorough "
              "2..4) over %s (any order, repeats) and all monotone sequences reaching "
              "-inf/+inf (both directions) x Kronrod orders; %d singular/peaked/"
              "discontinuous integrands x evaluation budgets; all complex contours of "
              "length 2..4 over 5 points; affine changes of variable, breakpoints in every pair of number types and "
              "scalings of the values by up to 1e60; every single evaluation k answered by NaN, "
              "+inf, -inf or an exception" % (len(FUNCS), FINITE, len(SING)))
    assumptions = ["integrands are deterministic"]

    def grids(self, tier):
        q = tier == "quick"
        self.seqs = sequences(3 if q else 4)
        yield "smooth", {"f": list(FUNCS), "pts": list(range(len(self.seqs))),
                         "order": [7, 2] if q else [7, 1, 2, 3, 5, 10],
                         "tol": ["default"] if q else ["default", "abs", "tight"]}
        yield "sing", {"f": list(SING), "ab": [(0.0, 1.0), (1.0, 0.0), (-1.0, 2.0),
                                               (0, 3), (-2, 0.0)],
                       "maxevals": [0, 1, 15, 45, 75, 100, 3000, 40000],
                       "reltol": [1e-3, 1e-6, 1e-9], "order": [7, 3, 10],
                       "phase": [1, 1j, 0.6 - 0.8j]}
        yield "contour", {"k": [2, 3, 4], "i0": range(5), "i1": range(5),
                          "i2": range(5), "i3": range(5), "order": [7] if q else [7, 4]}
        yield "fault", {"k": list(range(0, 40 if q else 130)),
                        "answer": ["nan", "inf", "-inf", "raise"],
                        "pts": [(0.0, 1.0), (0.0, INF), (-INF, INF), (0.0, 0.4, 1.0),
                                (1.0, -INF)],
                        "order": [1, 2, 3, 7], "f": ["gauss", "runge"]}
        yield "affine", {"f": ["poly5", "cos", "cexp", "runge", "gauss", "crunge"],
                         "ab": [(0, 3), (-2.0, 0.5), (1.5, -2.0), (0.25, INF),
                                (-INF, 1.0), (INF, -0.5)],
                         "amp": [1e-60, 1e-20, 1e-9, -1.0, 1e9, 1e40],
                         "h": [1e-7, 1.0, 1e6], "x0": [0.0, -3.0, 1024.0],
                         "order": [7] if q else [7, 4, 12]}
        yield "many", {"f": list(FUNCS), "m": [4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 65],
                       "end": ["none", "right", "left", "both"], "down": [False, True],
                       "order": [7, 3] if q else [7, 1, 2, 3, 4, 15, 30]}
        yield "add", {"f": [*FUNCS, *SING], "m": [2, 3, 4, 6], "down": [False, True],
                      "order": [7, 1, 2, 3, 4], "refine": [False, True]}
        yield "jump", {"pts": JUMPS, "amp": [1.0, 2j], "down": [False, True],
                       "order": [7, 3] if q else [7, 3, 4, 10]}
        yield "cost", {"f": list(SING), "ab": [(0.0, 1.0), (-1.0, 2.0)],
                       "reltol": [1e-3, 1e-6, 1e-8], "order": [7, 3] if q else [7, 3, 4, 10]}
        yield "ptypes", {"pts": [(0, 1), (3, 1), (0, 3, 1), (-2, 1), (1, -2, 3), (1, INF),
                                 (INF, 0), (-INF, 1), (-1, -INF), (-INF, INF),
                                 (0, 1, INF), (-INF, 1, INF), (INF, 1, -INF)],
                         "t0": TYPES, "t1": TYPES,
                         "f": ["runge", "npgauss", "crunge"],
                         "order": [7] if q else [7, 4]}
        # tolerances, limit and order left out are the documented ones
        yield "default", {"f": [*FUNCS, *SING], "given": list(range(16))}
        yield "long", {"freq": [3000.0, 10000.0], "order": [None, 7, 15]}
        yield "args", {"npts": [0, 1], "order": [7, 0, -1]}

    def valid(self, name, cfg):
        if name == "smooth":
            p = self.seqs[cfg["pts"]]
            if any(map(math.isinf, p)):
                return FUNCS[cfg["f"]][2]
        if name == "ptypes":
            p = cfg["pts"]
            return all(not (v < 0 and t == "uint8") for v, t in
                       [(p[0], cfg["t0"]), (p[-1], cfg["t1"])] if abs(v) < INF)
        if name == "many":
            return cfg["end"] == "none" or FUNCS[cfg["f"]][2]
        if name == "affine":
            if any(map(math.isinf, cfg["ab"])):
                # the map of the half line has a scale of its own
                return FUNCS[cfg["f"]][2] and cfg["h"] == 1
            return cfg["h"] >= 1 or cfg["x0"] == 0
        if name == "contour":
            if cfg["k"] < 4 and cfg["i3"] or cfg["k"] < 3 and cfg["i2"]:
                return False
            i = [cfg[f"i{j}"] for j in range(cfg["k"])]
            return all(a != b for a, b in zip(i, i[1:]))
        if name == "sing":
            if cfg["phase"] != 1 and not (cfg["reltol"] == 1e-6 and cfg["order"] == 7):
                return False
            return cfg["f"] != "isqrt" or cfg["reltol"] > 1e-9
        return True

    def obs_smooth(self, ctx, f, pts, order, tol):
        from modepy.quadrature.kronrod import quadgk
        fn, F, _ = FUNCS[f]
        p = self.seqs[pts]
        n = 0

        def g(x):
            nonlocal n
            n += 1
            return fn(x)
        kw = {"default": {}, "abs": {"abstol": 1e-6, "reltol": 0.0},
              "tight": {"reltol": 1e-11, "abstol": 1e-12}}[tol]
        kw["maxevals"] = 20000
        # zero integrals cannot meet a purely relative tolerance: the budget bounds them
        if tol == "default":
            kw["abstol"] = 1e-10
        got, err = quadgk(g, *p, order=order, **kw)
        want = sum(F(b) - F(a) for a, b in zip(p, p[1:]))
        budget = max((2 * order + 1) * (len(p) - 1), 20000 + 4 * order + 2)
        ctx.true("budget", n <= budget, f"{n} evaluations, budget {budget}")
        target = max(kw.get("abstol", 0), kw.get("reltol", 1.49e-8) * abs(want))
        ctx.true("converged", err <= 1.01 * target + 1e-300 or n >= 20000,
                 f"error estimate {err}, requested {target}")
        # the error estimate has to bound the error (low orders may be lucky: factor)
        allow = 10 * max(err, target) + 1e-12 * (1 + abs(want))
        ctx.close("integral", got, want, allow)
        ctx.true("error-estimate", err >= 0)
        ctx.note(n)

    def obs_add(self, ctx, f, m, down, order, refine):
        """Without refinement, value and error estimate are those of the pieces, summed;
        with it, the estimate covers the error of all pieces, not just of the worst."""
        from modepy.quadrature.kronrod import quadgk
        fn = (FUNCS[f] if f in FUNCS else SING[f])[0]
        p = [-1 + 3 * (i / m) ** 1.5 for i in range(m + 1)]
        if down:
            p.reverse()
        mx = 0
        if refine:
            # bring every piece to the same level: halve each once
            p = sorted({*p, *((a + b) / 2 for a, b in zip(p, p[1:]))}, reverse=down)
        got, err = quadgk(fn, *p, order=order, maxevals=mx)
        parts = [quadgk(fn, a, b, order=order, maxevals=mx) for a, b in zip(p, p[1:])]
        tot = sum(abs(v) for v, _ in parts)
        ctx.close("sum", complex(got), complex(sum(v for v, _ in parts)), 1e-13 * (1 + tot))
        ctx.close("error", err, sum(e for _, e in parts), 1e-13 * (1 + tot))
        ctx.note(m)

    def obs_jump(self, ctx, pts, amp, down, order):
        """A jump exactly at a breakpoint costs nothing."""
        from modepy.quadrature.kronrod import quadgk
        inner = [x for x in pts if abs(x) < INF]
        n = 0

        def step(x):
            return sum((k + 1) * (-1)**k for k, c in enumerate(inner) if x > c) + 0.5

        def g(x):
            nonlocal n
            n += 1
            return amp * step(x) * fn(x)
        fn, F, _ = FUNCS["runge"]
        p = pts[::-1] if down else pts
        got, err = quadgk(g, *p, order=order, reltol=1e-9, maxevals=20000)
        want = amp * sum(step((max(a, -1e3) + min(b, 1e3)) / 2) * (F(b) - F(a))
                         for a, b in zip(pts, pts[1:])) * (-1 if down else 1)
        ctx.close("integral", complex(got), complex(want), 1e-8)
        ctx.true("cheap", n <= (2 * order + 1) * len(pts) * (12 if order >= 7 else 40), n)
        ctx.note(n)

    def obs_cost(self, ctx, f, ab, reltol, order):
        """Bisecting the worst segment first needs few evaluations."""
        from modepy.quadrature.kronrod import quadgk
        fn, F = SING[f]
        n = 0

        def g(x):
            nonlocal n
            n += 1
            return fn(x)
        pts = (ab[0], 0.0, ab[1]) if ab[0] < 0 else ab
        got, err = quadgk(g, *pts, order=order, reltol=reltol, maxevals=40000)
        want = greedy(fn, pts, order, reltol, 40000)
        ctx.true("evaluations", n <= 1.1 * want + 2 * (4 * order + 2),
                 f"{n} evaluations, bisecting the worst segment first needs {want}")
        ctx.note((n, f))

    def obs_ptypes(self, ctx, pts, t0, t1, f, order):
        """The number type in which breakpoints happen to be given is irrelevant."""
        from modepy.quadrature.kronrod import quadgk
        fn, F, _ = FUNCS[f]

        def typed(v, t):
            if abs(v) == INF and "int" in t:
                t = "float"             # integer types have no infinity
            return {"int": int, "float": float}.get(t, getattr(np, t, None))(v)
        p = [typed(pts[0], t0), *pts[1:-1], typed(pts[-1], t1)]
        got, err = quadgk(fn, *p, order=order, abstol=1e-10, maxevals=20000)
        want = F(pts[-1]) - F(pts[0])
        ctx.close("integral", complex(got), want, 1e-7 + 10 * err)
        ctx.true("converged", err <= max(1e-10, 1.5e-8 * abs(want)), err)
        base, _ = quadgk(fn, *map(float, pts), order=order, abstol=1e-10, maxevals=20000)
        ctx.close("same", complex(got), complex(base), 1e-9)
        ctx.note((t0, t1))

    def obs_many(self, ctx, f, m, end, down, order):
        """Many breakpoints, unevenly spaced: each piece is integrated once."""
        from modepy.quadrature.kronrod import quadgk
        fn, F, _ = FUNCS[f]
        p = [-2 + 5 * ((i / (m - 1)) ** 1.5) for i in range(m)]
        if end in ("left", "both"):
            p[0] = -INF
        if end in ("right", "both"):
            p[-1] = INF
        if down:
            p.reverse()
        n = 0

        def g(x):
            nonlocal n
            n += 1
            return fn(x)
        got, err = quadgk(g, *p, order=order, abstol=1e-10, maxevals=20000)
        want = F(p[-1]) - F(p[0])
        init = (2 * order + 1) * (m - 1)
        ctx.true("budget", init <= n <= max(init, 20000 + 4 * order + 1), n)
        target = max(1e-10, 1.49e-8 * abs(want))
        ctx.true("converged", 0 <= err <= 1.01 * target or err > 0 and n >= 20000,
                 f"{err}, requested {target}")
        ctx.close("integral", got, want, 10 * max(err, target))
        ctx.note((n, m))

    def obs_affine(self, ctx, f, ab, amp, h, x0, order):
        """With the default (purely relative) tolerance neither the unit of the values nor
        the unit and origin of the abscissa matter."""
        from modepy.quadrature.kronrod import quadgk
        fn, F, _ = FUNCS[f]
        n = 0

        def g(x):
            nonlocal n
            n += 1
            return amp * fn((x - x0) / h)
        want = amp * h * (F(ab[1]) - F(ab[0]))
        kw = {} if order == 7 else {"order": order}
        got, err = quadgk(g, *[x0 + h * t for t in ab], maxevals=20000, **kw)
        ctx.true("converged", 0 <= err <= 1.5e-8 * abs(got), f"{err}, value {got}")
        ctx.close("integral", got / want, 1.0, 1e-7)
        ctx.true("evaluations", n < 3000, n)
        ctx.note(n)

    def obs_sing(self, ctx, f, ab, maxevals, reltol, order, phase):
        from modepy.quadrature.kronrod import quadgk
        fn, F = SING[f]
        n = 0

        def g(x):
            nonlocal n
            n += 1
            return phase * fn(x)
        a, b = ab
        pts = (a, 0.0, b) if f in ("log", "isqrt") and a * b < 0 else (a, b)
        got, err = quadgk(g, *pts, order=order, reltol=reltol, maxevals=maxevals)
        want = phase * (F(b) - F(a))
        init = (2 * order + 1) * (len(pts) - 1)
        ctx.true("budget", n <= max(init, maxevals + 4 * order + 1),
                 f"{n} evaluations with maxevals={maxevals}")
        ctx.true("at-least-initial", n >= init, f"{n}")
        if n < maxevals:
            ctx.true("stopped-early", err <= reltol * abs(got) * (1 + 1e-9),
                     f"stopped with error {err} > {reltol} * {abs(got)}")
        if maxevals == 40000:
            # adaptivity: a local singularity must not exhaust the budget
            ctx.true("adaptive", n < 8000, f"{n} evaluations")
            ctx.close("integral", got, want, 20 * reltol * max(abs(want), 0.1))
        ctx.note((n, f))

    def obs_contour(self, ctx, k, i0, i1, i2, i3, order):
        from modepy.quadrature.kronrod import quadgk
        p = [CPTS[i] for i in (i0, i1, i2, i3)[:k]]
        for label, fn, F in [
                ("z2", lambda z: z * z, lambda z: z**3 / 3),
                ("exp", cmath.exp, cmath.exp)]:
            got, err = quadgk(fn, *p, order=order, abstol=1e-11, maxevals=5000)
            want = F(p[-1]) - F(p[0])
            ctx.close(label, got, want, 1e-7 * (1 + abs(want)))
        # pole at the origin: the winding number decides
        if all(abs(a + b) > 1e-9 for a, b in zip(p, p[1:])):
            got, err = quadgk(lambda z: 1 / z, *p, order=order, abstol=1e-11,
                              maxevals=8000)
            want = sum(cmath.log(b / a) for a, b in zip(p, p[1:]))
            ctx.close("winding", got, want, 1e-6)

    def obs_fault(self, ctx, k, answer, pts, order, f):
        from modepy.quadrature.kronrod import quadgk
        fn = FUNCS[f][0]

        def run(fault):
            n = 0

            def g(x):
                nonlocal n
                n += 1
                if n - 1 == fault:
                    if answer == "raise":
                        raise Bang()
                    return {"nan": math.nan, "inf": INF, "-inf": -INF}[answer]
                return fn(x)
            r = quadgk(g, *pts, order=order, maxevals=120, reltol=1e-10)
            return r, n
        base, n = run(None)
        again, n2 = run(None)
        ctx.eq("deterministic", (base, n), (again, n2))
        if k < n:
            ctx.raises("fault", Bang if answer == "raise" else ValueError,
                       lambda: run(k), f"evaluation {k} answered {answer}")
        else:
            ctx.eq("unreached", run(k), (base, n))
        ctx.note(n)

    def obs_default(self, ctx, f, given):
        from modepy.quadrature.kronrod import quadgk
        fn = FUNCS[f][0] if f in FUNCS else SING[f][0]
        full = {"abstol": 0.0, "reltol": 1.49e-8, "maxevals": 10**7, "order": 7}
        part = {k: v for i, (k, v) in enumerate(full.items()) if given >> i & 1}
        calls = [[], []]

        def run(kw, c):
            def g(x):
                c.append(x)
                return fn(x)
            return quadgk(g, 0.0, 0.25, 1.0, **kw)
        a, b = run(part, calls[0]), run(full, calls[1])
        ctx.eq("points", calls[0], calls[1])
        ctx.eq("result", a, b)
        ctx.true("first-rule", len(set(calls[0][:30])) == 30 and (
            len(calls[0]) - 30) % 30 == 0, f"{len(calls[0])} evaluations")

    def obs_long(self, ctx, freq, order):
        from modepy.quadrature.kronrod import quadgk
        n = []

        def g(x):
            n.append(1)
            return math.cos(freq * x)
        v, e = quadgk(g, 0.0, 1.0, **({} if order is None else {"order": order}))
        ctx.close("value", v, math.sin(freq) / freq, 3 * e + 1e-12)
        ctx.true("converged", e <= 1.49e-8 * abs(v), f"{e} after {len(n)}")

    def obs_args(self, ctx, npts, order):
        from modepy.quadrature.kronrod import quadgk
        ctx.raises("breakpoints", ValueError,
                   lambda: quadgk(lambda x: x, *[0.0] * npts, order=order))
        if order < 1:
            ctx.raises("order", ValueError, lambda: quadgk(lambda x: x, 0, 1, order=order))
