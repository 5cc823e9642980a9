"""C23: coordinate maps between reference elements, affine maps, monomials."""
import itertools
import math
from fractions import Fraction

import numpy as np

import modepy as mp
import modepy.tools as mt
from mc.engine import Model

ENT = {1: (-3, -1, 0, 1, 2), 2: (-2, -1, 0, 1, 3), 3: (-1, 0, 1)}
VEC = {1: [(0,), (2,)], 2: [(0, 0), (1, -2)], 3: [(0, 0, 0), (1, -2, 3)]}
PAIR = [((1, 2, 0, 1), (1, -1)), ((0, -1, 1, 0), (0, 2)), ((2, 0, 0, 2), (0, 0)),
        ((1, 2, 0, 1), (3, 3))]
OPS = ["a.inv", "b.inv", "a.jac", "b.jac", "a.call", "b.call", "a.inv.inv"]
FACTORS = [1, 0, -2.5, 7]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1)**j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
               for j in range(n))


def inverse(m):
    n = len(m)
    d = Fraction(det(m))
    if n == 1:
        return [[1 / d]]
    return [[(-1)**(i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j])
             / d for j in range(n)] for i in range(n)]


def rows(flat, d):
    return [list(flat[i * d:(i + 1) * d]) for i in range(d)]


def lattice(d, n):
    """Barycentric lattice (d+1, npts) of order n (n = 0: the vertices only)."""
    pts = [p for p in itertools.product(range(n + 1), repeat=d + 1) if sum(p) == n]
    return np.array(pts, dtype=float).T / n


class MODEL(Model):
    id = "C23"
    bounds = ("affine maps: every integer matrix over %s (dim 1..3; quick: every third "
              "3x3 lattice slice is included too) x offsets x argument shapes; all "
              "sequences of up to 3 (4) accesses on all pairs of 4 maps; barycentric / "
              "unit / equilateral maps in dims 0..5 / 1..3 on lattices of order 1..4; "
              "monomials: all exponents of total degree <= 6 in dims 0..4 x factors %s, "
              "all sequences of up to 3 differentiations" % (ENT, FACTORS))

    def init(self, tier):
        q = tier == "quick"
        self.depth = 3 if q else 4
        out = [("affine", d, m) for d in (1, 2)
               for m in itertools.product(ENT[d], repeat=d * d)]
        out += [("affine", 3, m) for m in itertools.product(ENT[3], repeat=9)
                if not q or m[0] != -1 and m[4] != 0]
        out += [("coord", d, n) for d in range(6) for n in range(1, 5)]
        out += [("equi", d, n) for d in (1, 2, 3) for n in range(1, 5)]
        out += [("hist", i, j, ()) for i in range(4) for j in range(4)]
        deg = 6 if q else 9
        out += [("mono", e, f, ()) for d in range(5)
                for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg
                for f in FACTORS]
        big = [1, 12, 20, 21, 34, 63, 64, 100]
        out += [("mono", e, f, ()) for d in (1, 2, 3)
                for e in itertools.product(big[::1 if d < 3 else 3], repeat=d)
                for f in FACTORS]
        return out

    def events(self, s, tier):
        if s[0] == "hist" and len(s[3]) < self.depth:
            return list(range(len(OPS)))
        if s[0] == "mono" and len(s[3]) < 3 and s[2] in (1, -2.5) and sum(s[1]) <= 5:
            return list(range(len(s[1])))
        return []

    def step(self, s, ev):
        return (*s[:3], (*s[3], ev))

    def describe(self, s):
        return {"grid": s[0], "args": s[1:]}

    def observe(self, s, ctx):
        getattr(self, "obs_" + s[0])(ctx, *s[1:])

    def obs_affine(self, ctx, d, flat):
        a = rows(flat, d)
        D = det(a)
        for b in VEC[d]:
            m = mt.AffineMap(a, b) if b == VEC[d][0] else \
                mt.AffineMap(np.array(a, dtype=float), np.array(b))
            x = np.array([[(3 * i + 5 * k) % 7 - 2.5 for k in range(4)]
                          for i in range(d)])
            want = np.array(a) @ x + np.array(b)[:, None]
            x0 = x.copy()
            ctx.close("call", m(x), want, 1e-12)
            ctx.close("call-vector", m(x[:, 1]), want[:, 1], 1e-12)
            ctx.close("call-one", m(x[:, 1:2]), want[:, 1:2], 1e-12)
            ctx.close("call-none", m(x[:, :0]), want[:, :0], 1e-12)
            ctx.close("call-F", m(np.asfortranarray(x)), want, 1e-12)
            ctx.close("call-strided", m(np.repeat(x, 2, axis=1)[:, ::2]), want, 1e-12)
            ctx.close("unchanged", x, x0, 0)
            ctx.close("jacobian", m.jacobian, D, 1e-10)
            if D == 0:
                # rank deficiency is detected exactly only for exactly representable
                # eliminations; a huge inverse is the alternative outcome
                try:
                    m.inverse  # noqa: B018
                except np.linalg.LinAlgError:
                    pass
                continue
            ia = np.array([[float(v) for v in r] for r in inverse(a)])
            inv = m.inverse
            y = np.eye(d)
            ctx.close("inverse", inv(y), ia @ (y - np.array(b)[:, None]), 1e-10)
            ctx.close("inverse-call", inv(m(x)), x, 1e-10)
            ctx.close("call-inverse", m(inv(x)), x, 1e-10)
            ctx.close("inverse-jacobian", inv.jacobian, 1 / D, 1e-10)
            ctx.close("inverse-inverse", inv.inverse(x), want, 1e-10)
            ctx.close("call-again", m(x), want, 1e-12)

    def obs_hist(self, ctx, i, j, ops):
        maps = {k: mt.AffineMap(rows(PAIR[p][0], 2), PAIR[p][1])
                for k, p in (("a", i), ("b", j))}
        x = np.array([[1.0, -2, 0.5], [0, 3, 0.25]])
        for op in ops:
            k, *names = OPS[op].split(".")
            m, p = maps[k], PAIR[i if k == "a" else j]
            A, b = np.array(rows(p[0], 2)), np.array(p[1], dtype=float)
            for name in names:
                if name == "inv":
                    m = m.inverse
                    A = np.linalg.inv(A)
                    b = -A @ b
            if names == ["jac"]:
                ctx.close("jacobian", m.jacobian, np.linalg.det(A), 1e-12)
            else:
                ctx.close("map", m(x), A @ x + b[:, None], 1e-12)

    def obs_coord(self, ctx, d, n):
        bary = lattice(d, n)
        unit = np.array([2 * bary[i + 1] - 1 for i in range(d)]).reshape(d, bary.shape[1])
        b0, u0 = bary.copy(), unit.copy()
        ctx.close("barycentric-to-unit", mt.barycentric_to_unit(bary), unit, 1e-14)
        ctx.close("unit-to-barycentric", mt.unit_to_barycentric(unit), bary, 1e-14)
        for k in range(0, bary.shape[1], 3):
            ctx.close("one", mt.barycentric_to_unit(bary[:, k:k + 1]),
                      unit[:, k:k + 1], 1e-14)
            ctx.close("one", mt.unit_to_barycentric(unit[:, k:k + 1]),
                      bary[:, k:k + 1], 1e-14)
        # affine outside the element too
        far = 3 * unit - 1
        ctx.close("affine", mt.barycentric_to_unit(mt.unit_to_barycentric(far)), far,
                  1e-13)
        ctx.close("sum", mt.unit_to_barycentric(far).sum(axis=0),
                  np.ones(unit.shape[1]), 1e-13)
        ctx.close("unchanged", bary, b0, 0)
        ctx.close("unchanged", unit, u0, 0)

    def obs_equi(self, ctx, d, n):
        bary = lattice(d, n)
        r3, r6 = math.sqrt(3), math.sqrt(6)
        V = {1: [[-1], [1]],
             2: [[-1, -1 / r3], [1, -1 / r3], [0, 2 / r3]],
             3: [[-1, -1 / r3, -1 / r6], [1, -1 / r3, -1 / r6], [0, 2 / r3, -1 / r6],
                 [0, 0, 3 / r6]]}[d]
        V = np.array(V, dtype=float).T
        equi = V @ bary
        unit = np.array([2 * bary[i + 1] - 1 for i in range(d)])
        got = mt.barycentric_to_equilateral(bary)
        ctx.close("barycentric-to-equilateral", got, equi, 1e-13)
        ctx.close("equilateral-to-unit", mt.equilateral_to_unit(equi), unit, 1e-13)
        ctx.close("round-trip", mt.equilateral_to_unit(got), unit, 1e-13)
        m = mt.EQUILATERAL_TO_UNIT_MAP[d]
        ctx.close("inverse", m.inverse(unit), equi, 1e-13)
        ctx.close("vertices", mt.EQUILATERAL_VERTICES[d], V.T, 1e-14)
        # volumes: the map's Jacobian is the quotient of the volumes
        ve = abs(np.linalg.det(V[:, 1:] - V[:, :1])) / math.factorial(d)
        vu = 2**d / math.factorial(d)
        ctx.close("jacobian", m.jacobian, vu / ve, 1e-12)

    def obs_mono(self, ctx, exps, factor, diffs):
        d = len(exps)
        m = mt.Monomial(exps if len(diffs) % 2 else list(exps), factor)
        if factor == 1:
            one = mt.Monomial(exps)
            ctx.eq("default-factor", (tuple(one.exponents), one.factor),
                   (tuple(m.exponents), m.factor))
        e, f = list(exps), factor
        for i in diffs:
            old = (m.exponents, m.factor)
            new = m.diff(i)
            ctx.eq("operand", (m.exponents, m.factor), old)
            m = new
            f *= e[i]
            e[i] = max(e[i] - 1, 0)
        tol = 1e-12 * max(1, abs(f))
        if f:
            ctx.eq("exponents", tuple(m.exponents), tuple(e))
        ctx.close("factor", m.factor, f, tol)
        tot = Fraction(f).limit_denominator() if f else Fraction(0)
        si = tot * 2**d * math.prod(math.factorial(k) for k in e) / \
            math.factorial(d + sum(e))
        hi = tot * Fraction(1, math.prod(k + 1 for k in e))
        ctx.close("simplex-integral", m.simplex_integral(), float(si), tol)
        ctx.close("hypercube-integral", m.hypercube_integral(), float(hi), tol)
        if f:
            ctx.close("simplex-integral-relative", m.simplex_integral() / float(si), 1,
                      1e-12)
            ctx.close("hypercube-integral-relative", m.hypercube_integral() / float(hi),
                      1, 1e-12)
        if not d:
            return
        x = np.array([[((7 * i + 3 * k) % 11) / 5 - 1 for k in range(6)]
                      for i in range(d)])
        x[:, 0], x[:, 1] = -1, 1
        want = f * np.prod([((x[i] + 1) / 2)**e[i] for i in range(d)], axis=0)
        x0 = x.copy()
        ctx.close("call", np.broadcast_to(m(x), (6,)), want, tol)
        ctx.close("call-2d", np.broadcast_to(m(x.reshape(d, 2, 3)), (2, 3)),
                  want.reshape(2, 3), tol)
        ctx.close("call-point", m(x[:, 3]), want[3], tol)
        ctx.close("unchanged", x, x0, 0)
        # a monomial is a polynomial on all of space
        if sum(e) < 30:
            x *= 3
            x[:, 2] = 0.25
            want = f * np.prod([((x[i] + 1) / 2)**e[i] for i in range(d)], axis=0)
            for k in range(6):
                ctx.close("outside", m(x[:, k]), want[k], 1e-12 * (1 + abs(want[k])))
            ctx.close("outside", np.broadcast_to(m(x), (6,)) / (1 + abs(want)),
                      want / (1 + abs(want)), 1e-12)
        if len(diffs) == 0 and sum(exps) <= 4 and d <= 3:
            q = mp.quadrature_for_space(mp.PN(d, max(sum(e), 1)), mp.Simplex(d))
            ctx.close("quadrature", q(m), float(si), 1e-11 * max(1, abs(f)))
