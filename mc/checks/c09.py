"""C09: Jacobi polynomials, their derivatives and their conventional scaling."""
import math
from fractions import Fraction

import numpy as np

import modepy as mp
from mc import ref
from mc.engine import GridModel

AB = [-0.95, -0.8, -0.5, -0.25, -0.2, 0, 0.3, 0.5, 1, 2, 3.7, 6, 11]
KINDS = ["1d", "2d", "ends", "npscalar", "pyfloat", "f32", "empty", "int", "strided"]


def points(kind):
    x = np.concatenate([np.linspace(-1, 1, 17), [-1 + 1e-7, 1 - 1e-7, 0.123, -0.987]])
    return {
        "1d": x,
        "2d": x[:20].reshape(4, 5),
        "ends": np.array([-1.0, 1.0]),
        "npscalar": np.float64(0.37),
        "pyfloat": -0.61,
        "f32": np.linspace(-1, 1, 9).astype(np.float32),
        "empty": np.zeros(0),
        "int": np.array([-1, 0, 1]),
        "strided": np.linspace(-1, 1, 40)[::-3],
    }[kind]


def binom_exact(n, a):
    r = Fraction(1)
    for i in range(1, n + 1):
        r = r * (n + a - i + 1) / i
    return r


class MODEL(GridModel):
    id = "C09"
    bounds = ("alpha, beta in %s (all pairs, incl. alpha+beta = -1), every n = 0..Nmax "
              "(quick 24, thorough 60) plus {80, 90, 120, 140}, %d argument kinds; every "
              "polynomial compared with the reference recurrence, its derivative with "
              "the exact complex step" % (AB, len(KINDS)))
    assumptions = ["the reference recurrence is validated against exact rationals by "
                   "setup_cmd"]

    def grids(self, tier):
        q = tier == "quick"
        ns = [*range(25 if q else 61), 80, 90, 120, 140]
        yield "values", {"a": AB, "b": AB, "n": ns}
        yield "kinds", {"kind": KINDS, "a": [-0.5, 0, 1, 2.5],
                        "b": [-0.5, 0, 3], "n": [0, 1, 2, 3, 7, 12]}
        yield "endpoint", {"a": AB, "b": AB, "n": list(range(0, 13 if q else 41))}
        # next to, but not on, the removable singularity alpha + beta = -1
        yield "near_singular", {"a": [-0.95, -0.8, -0.5, -0.3, -0.05],
                                "off": [s * e for e in (1e-2, 1e-4, 1e-6, 1e-9, 1e-12)
                                        for s in (1, -1)],
                                "n": [0, 1, 2, 3, 8]}
        yield "gram", {"a": [-0.5, 0, 0.3, 1, 2, 6], "b": [-0.5, 0, 0.3, 1, 2, 6],
                       "N": [20] if q else [20, 45]}

    @staticmethod
    def _ref(a, b, n, x):
        return ref.jacobi_all(a, b, n, x)[n]

    def obs_values(self, ctx, a, b, n):
        x = points("1d")
        x0 = x.copy()
        want = self._ref(a, b, n, x)
        sc = np.abs(want).max()
        # conditioning at the end points grows like n^2 per ulp of x
        tol = 1e-12 * (n + 1) ** 2 * max(sc, 1)
        ctx.close("jacobi", mp.jacobi(a, b, n, x), want, tol)
        if (n < 6 or n == 20) and a in AB and b in AB:
            # batches of any size, round ones included
            sizes = [100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192,
                     10000, 10240, 16384, 20000, 32768]
            if a == b:
                sizes += [40000, 50000, 65536, 100000]
            grad = mp.grad_jacobi(a, b, n, x)
            for size in sizes:
                many = np.resize(x, size)
                for lab, fn, w in (("batch", mp.jacobi, want),
                                   ("batch-grad", mp.grad_jacobi, grad)):
                    ctx.close(f"{lab}-{size}",
                              np.broadcast_to(fn(a, b, n, many), many.shape),
                              np.resize(w, size), tol)
        z = x.astype(complex) + 1e-30j
        dwant = self._ref(a, b, n, z).imag / 1e-30
        dtol = 1e-12 * (n + 1) ** 2 * max(np.abs(dwant).max(), 1)
        ctx.close("grad_jacobi", mp.grad_jacobi(a, b, n, x), dwant, dtol)
        cl = want * math.sqrt(ref.jac_norm2(a, b, n))
        ctx.close("scaled_jacobi", mp.scaled_jacobi(a, b, n, x), cl,
                  1e-12 * (n + 1) ** 2 * max(np.abs(cl).max(), 1))
        ctx.close("reflection", mp.jacobi(b, a, n, -x), (-1) ** n * want, tol)
        ctx.close("input-unchanged", x, x0, 0)

    def obs_near_singular(self, ctx, a, off, n):
        self.obs_values(ctx, a, -1 - a + off, n)

    def obs_kinds(self, ctx, kind, a, b, n):
        x = points(kind)
        xx = np.asarray(x, dtype=float)
        want = self._ref(a, b, n, xx)
        z = xx.astype(complex) + 1e-30j
        dwant = self._ref(a, b, n, z).imag / 1e-30
        tol = 1e-4 if kind == "f32" else 1e-11
        for label, f, w in [("jacobi", mp.jacobi, want),
                            ("grad_jacobi", mp.grad_jacobi, dwant),
                            ("scaled_jacobi", mp.scaled_jacobi,
                             want * math.sqrt(ref.jac_norm2(a, b, n)))]:
            got = f(a, b, n, x)
            ctx.eq(label + "-shape", np.shape(got), np.shape(x))
            sc = max(1, np.abs(w).max()) if np.size(w) else 1
            ctx.close(label, got, w, tol * sc)
            if kind == "f32":
                ctx.eq(label + "-dtype", got.dtype, np.dtype(np.float32))

    def obs_endpoint(self, ctx, a, b, n):
        pa = float(binom_exact(n, Fraction(a)))
        pb = float((-1) ** n * binom_exact(n, Fraction(b)))
        got = mp.scaled_jacobi(a, b, n, np.array([1.0, -1.0]))
        ctx.close("ends", got, np.array([pa, pb]),
                  1e-11 * (n + 1) * np.maximum(1, np.abs([pa, pb])))

    def obs_gram(self, ctx, a, b, N):
        import scipy.special as sp
        x, w = sp.roots_jacobi(N + 1, a, b)
        V = np.array([mp.jacobi(a, b, n, x) for n in range(N + 1)])
        ctx.close("gram", (V * w) @ V.T, np.eye(N + 1), 1e-9)
