"""The reference model: polynomial spaces on (products of) simplices, written without
any use of modepy.

A *factor list* ``[(d1, N1), (d2, N2), ...]`` stands for the space
``P^N1(simplex of dim d1) x P^N2(simplex of dim d2) x ...``; ``[(1, n)] * d`` is Q^n.
All shapes are the bi-unit ones: simplex ``{r_i >= -1, sum r_i <= 2 - d}``.
"""
from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction

import numpy as np

EPS = np.finfo(float).eps


# {{{ Jacobi

def jac_norm2(a, b, n):
    """Square norm of the classical Jacobi polynomial P_n^{(a,b)}."""
    lg = math.lgamma
    if n == 0:
        return math.exp((a + b + 1) * math.log(2) + lg(a + 1) + lg(b + 1) - lg(a + b + 2))
    return math.exp((a + b + 1) * math.log(2) - math.log(2 * n + a + b + 1)
                    + lg(n + a + 1) + lg(n + b + 1) - lg(n + 1) - lg(n + a + b + 1))


def jacobi_classical(a, b, N, x):
    """P_0 .. P_N at x (any dtype, also Fraction arrays)."""
    one = x * 0 + 1
    out = [one]
    if N >= 1:
        out.append(((a + b + 2) * x + (a - b)) / 2)
    for n in range(2, N + 1):
        c = 2 * n + a + b
        out.append(((c - 1) * (c * (c - 2) * x + (a * a - b * b) * one) * out[-1]
                    - 2 * (n + a - 1) * (n + b - 1) * c * out[-2])
                   / (2 * n * (n + a + b) * (c - 2)))
    return out


def jacobi_all(a, b, N, x):
    """Orthonormal Jacobi polynomials 0..N at x: array (N+1, *x.shape)."""
    x = np.asarray(x)
    v = jacobi_classical(a, b, N, x)
    return np.array([v[n] / math.sqrt(jac_norm2(a, b, n)) for n in range(N + 1)])


def jacobi_int(a, b):
    """Integral of the orthonormal p_0 against the weight."""
    return math.sqrt(jac_norm2(a, b, 0))

# }}}


# {{{ simplex / tensor product bases

@functools.lru_cache(None)
def simplex_ids(d, N):
    if d == 0:
        return ((),)
    return tuple(sorted((t for t in itertools.product(range(N + 1), repeat=d)
                         if sum(t) <= N), key=lambda t: (sum(t), t)))


def _hom(a, N, u, v):
    """v^n P_n^{(a,0)}(u/v) for n = 0..N"""
    out = [u * 0 + 1]
    if N >= 1:
        out.append(((a + 2) * u + a * v) / 2)
    for n in range(2, N + 1):
        c = 2 * n + a
        out.append(((c - 1) * (c * (c - 2) * u + a * a * v) * out[-1]
                    - 2 * (n + a - 1) * (n - 1) * c * v * v * out[-2])
                   / (2 * n * (n + a) * (c - 2)))
    return out


def pkdo(d, N, x):
    """Orthonormal basis of P^N on the bi-unit simplex; (nmodes, npts) in the order of
    simplex_ids(d, N)."""
    ids = simplex_ids(d, N)
    x = np.asarray(x)
    if d == 0:
        return np.ones((1, x.shape[-1]), dtype=x.dtype)
    lam = [(1 + x[k]) / 2 for k in range(d)]
    s = [1 - sum(lam)]
    for k in range(d):
        s.append(s[-1] + lam[k])
    s[d] = s[d] * 0 + 1
    cache = {}

    def q(k, a):
        if (k, a) not in cache:
            u = lam[k] - s[k]
            # the last direction is not homogenized: s_d == 1
            cache[k, a] = _hom(a, N, u, s[k + 1])
        return cache[k, a]

    out = []
    for t in ids:
        val = x[0] * 0 + 1
        pre = 0
        nrm = 1.0
        for k in range(d):
            a = 2 * pre + k
            val = val * q(k, a)[t[k]]
            nrm *= (2 * t[k] + a + 1) / 2
            pre += t[k]
        out.append(val * math.sqrt(nrm))
    return np.array(out)


def factor_dim(factors):
    return sum(d for d, _ in factors)


def space_dim(factors):
    r = 1
    for d, N in factors:
        r *= math.comb(N + d, d)
    return r


def tp_ids(factors):
    return [sum(t, ()) for t in itertools.product(*(simplex_ids(d, N) for d, N in factors))]


def tp_basis(factors, x):
    """(nmodes, npts) orthonormal basis of the product space, first factor slowest."""
    x = np.asarray(x)
    npts = x.shape[-1]
    out = np.ones((1, npts), dtype=x.dtype)
    o = 0
    for d, N in factors:
        v = pkdo(d, N, x[o:o + d])
        o += d
        out = (out[:, None, :] * v[None, :, :]).reshape(-1, npts)
    return out


def tp_grad(factors, x):
    """Gradient by complex step: (dim, nmodes, npts); exact up to rounding."""
    d = factor_dim(factors)
    x = np.asarray(x, dtype=float)
    h = 1e-30
    res = []
    for k in range(d):
        z = x.astype(complex)
        z[k] += 1j * h
        res.append(tp_basis(factors, z).imag / h)
    return np.array(res).reshape(d, space_dim(factors), x.shape[-1])

# }}}


# {{{ reference quadrature (conical products of Gauss-Legendre)

@functools.lru_cache(None)
def leggauss(n):
    """Gauss-Legendre, polished by Newton on the orthonormal Legendre recurrence."""
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w


@functools.lru_cache(None)
def simplex_rule(d, deg):
    """Nodes (d, n) strictly inside, weights; exact to degree *deg*."""
    if d == 0:
        return np.zeros((0, 1)), np.ones(1)
    n = (deg + d) // 2 + 1
    g, wg = leggauss(n)
    pts, wts = [], []
    for t in itertools.product(range(n), repeat=d):
        xi = [(1 + g[i]) / 2 for i in t]
        w = math.prod(wg[i] / 2 for i in t) * 2**d
        # lambda_d = xi_d, lambda_{d-1} = (1-xi_d) xi_{d-1}, ...
        rest = 1.0
        lam = [0.0] * d
        for k in range(d - 1, -1, -1):
            lam[k] = rest * xi[k]
            w *= rest
            rest *= (1 - xi[k])
        # the Jacobian is prod of s_k over k: rest before each direction
        pts.append([2 * v - 1 for v in lam])
        wts.append(w)
    return np.array(pts).T.copy(), np.array(wts)


def tp_rule(dims, degs):
    rules = [simplex_rule(d, N) for d, N in zip(dims, degs)]
    pts, wts = [], []
    for t in itertools.product(*(range(r[0].shape[1]) for r in rules)):
        pts.append(np.concatenate([r[0][:, i] for r, i in zip(rules, t)])
                   if t else np.zeros(0))
        wts.append(math.prod(r[1][i] for r, i in zip(rules, t)))
    return np.array(pts).T.reshape(sum(dims), len(wts)), np.array(wts, dtype=float)


def volume(dims):
    return math.prod(Fraction(2**d, math.factorial(d)) for d in dims)


def simplex_moment(e):
    """Exact integral over the bi-unit simplex of prod ((1+r_i)/2)^{e_i}."""
    d = len(e)
    return Fraction(2**d * math.prod(math.factorial(k) for k in e),
                    math.factorial(sum(e) + d))

# }}}


# {{{ point families

def vertices(dims):
    """All vertices of the product shape: (nverts, dim)."""
    per = []
    for d in dims:
        v = -np.ones((d + 1, d))
        for k in range(d):
            v[k + 1, k] = 1
        per.append(v)
    return np.array([np.concatenate(t) if t else np.zeros(0)
                     for t in itertools.product(*per)]).reshape(
                         math.prod(d + 1 for d in dims), sum(dims))


def lattice(dims, n):
    """Barycentric lattice with n subdivisions per factor, incl. boundary: (dim, npts)."""
    per = []
    for d in dims:
        if d == 0:
            per.append([()])
            continue
        per.append([tuple(2 * k / n - 1 for k in t)
                    for t in itertools.product(range(n + 1), repeat=d) if sum(t) <= n])
    return np.array([sum(t, ()) for t in itertools.product(*per)],
                    dtype=float).T.reshape(sum(dims), math.prod(len(v) for v in per))


def generic_points(dims, npts=7):
    """Fixed non-special interior points."""
    d = sum(dims)
    primes = [2, 3, 5, 7, 11, 13][:d]
    res = np.zeros((d, npts))
    for i in range(npts):
        o = 0
        for dd in dims:
            u = sorted(math.fmod((i + 1) * math.sqrt(primes[o + k]) + 0.137, 1.0)
                       for k in range(dd))
            prev = 0.0
            for k in range(dd):
                res[o + k, i] = 2 * (u[k] - prev) * 0.98 + 0.0031 - 1
                prev = u[k]
            o += dd
    return res


def inside(dims, x, tol=1e-12):
    """Elementwise: is x (dim, n) inside the shape (up to tol)?"""
    ok = np.ones(x.shape[1], dtype=bool)
    o = 0
    for d in dims:
        xx = x[o:o + d]
        if d:
            ok &= (xx >= -1 - tol).all(axis=0) & (xx.sum(axis=0) <= 2 - d + tol)
        o += d
    return ok

# }}}


def cond(V):
    s = np.linalg.svd(V, compute_uv=False)
    return s[0] / s[-1] if s[-1] > 0 else np.inf


def self_check():
    """Validate the reference model against exact rational arithmetic."""
    # Jacobi recurrence in exact arithmetic vs the explicit sum
    for a, b in [(0, 0), (1, 0), (2, 3), (Fraction(1, 2), Fraction(-1, 2))]:
        for xx in [Fraction(-1), Fraction(1, 3), Fraction(7, 8)]:
            ps = jacobi_classical(Fraction(a), Fraction(b), 9, xx)
            for n, p in enumerate(ps):
                tot = Fraction(0)
                for s in range(n + 1):
                    tot += (_binom(n + a, n - s) * _binom(n + b, s)
                            * ((xx - 1) / 2)**s * ((xx + 1) / 2)**(n - s))
                assert tot == p, (a, b, n)
    # quadrature vs exact moments
    worst = 0.0
    for d, deg in [(1, 12), (2, 12), (3, 9), (4, 6)]:
        x, w = simplex_rule(d, deg)
        for e in simplex_ids(d, deg):
            got = w @ np.prod([((1 + x[k]) / 2)**e[k] for k in range(d)], axis=0)
            worst = max(worst, abs(got / float(simplex_moment(e)) - 1))
    assert worst < 1e-12, worst
    for d, N in [(1, 10), (2, 8), (3, 6), (4, 3)]:
        x, w = simplex_rule(d, 2 * N)
        v = pkdo(d, N, x)
        err = abs((v * w) @ v.T - np.eye(len(v))).max()
        assert err < 1e-12, (d, N, err)
        # total degree: leading modes only
        for i, t in enumerate(simplex_ids(d, N)):
            z = np.linspace(0, 1, N + 3)
            line = np.outer(-np.ones(d), 1 - z) + np.outer(
                generic_points((d,), 1)[:, 0], z)
            c = np.polynomial.chebyshev.chebfit(2 * z - 1, pkdo(d, N, line)[i], N + 2)
            if sum(t) < N + 2:
                assert abs(c[sum(t) + 1:]).max() < 1e-9 * max(1, abs(c).max())
    return worst


def _binom(x, k):
    r = Fraction(1)
    for i in range(k):
        r *= Fraction(x) - i
        r /= (i + 1)
    return r


if __name__ == "__main__":
    print("reference model validated against exact rational arithmetic:", self_check())
