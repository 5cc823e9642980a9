"""C32: every chain of discrete operators does to nodal values what the operators do to
the polynomial behind them.

A state is a polynomial (kept as coefficients by the model), a station (shape, order,
node set) and the path of operators that led there.  The implementation only carries a
vector of nodal values along the same path, by the matrices modepy builds.
"""
import functools
import math
import warnings

import numpy as np

import modepy as mp
from modepy.tools import AffineMap

from mc import ref, spaces
from mc.engine import Model

SHAPES = [(1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 2)]
KINDS = ["edge", "equi", "reversed"]


# {{{ polynomials of the model: {exponents: coefficient}

def p_clean(p):
    return {e: c for e, c in p.items() if c != 0}


def p_mul(p, q):
    r = {}
    for e, c in p.items():
        for f, d in q.items():
            k = tuple(a + b for a, b in zip(e, f))
            r[k] = r.get(k, 0.0) + c * d
    return p_clean(r)


def p_add(p, q, s=1.0):
    r = dict(p)
    for e, c in q.items():
        r[e] = r.get(e, 0.0) + s * c
    return p_clean(r)


def p_diff(p, k):
    return p_clean({(*e[:k], e[k] - 1, *e[k + 1:]): c * e[k]
                    for e, c in p.items() if e[k]})


def p_compose(p, rows, nin):
    """p(A y + b); rows: for every variable of p the coefficients (A row, b)."""
    zero = (0,) * nin
    lin = []
    for a, b in rows:
        q = {zero: b}
        for j, v in enumerate(a):
            q[tuple(int(i == j) for i in range(nin))] = v
        lin.append(p_clean(q))
    out = {}
    for e, c in p.items():
        t = {zero: c}
        for k, n in enumerate(e):
            for _ in range(n):
                t = p_mul(t, lin[k])
        out = p_add(out, t)
    return out


def p_eval(p, x):
    x = np.asarray(x)
    out = np.zeros(x.shape[1:])
    for e, c in p.items():
        t = np.full(x.shape[1:], float(c))
        for k, n in enumerate(e):
            if n:
                t = t * x[k] ** n
        out = out + t
    return out


def seeds(dims):
    """Polynomials of degree 0, 1, 2 in every factor, without symmetries."""
    D = sum(dims)
    zero = (0,) * D

    def unit(k):
        return tuple(int(i == k) for i in range(D))
    one = {zero: 1.5}
    lin, quad = {zero: 1.0}, {zero: 1.0}
    o = 0
    for i, d in enumerate(dims):
        f = {zero: 1.0 + 0.5 * i}
        for k in range(d):
            f[unit(o + k)] = 0.75 - 0.5 * k + 0.25 * i
        g = p_add(p_mul(f, f), {unit(o): -1.25})
        if d > 1:
            g = p_add(g, {tuple(int(j in (o, o + 1)) for j in range(D)): 0.5})
        lin, quad = p_mul(lin, f), p_mul(quad, g)
        o += d
    return [one, lin, quad]


# }}}


# {{{ what modepy supplies, cached per worker

def factors_of(dims, n):
    return tuple((d, n) for d in dims)


@functools.lru_cache(None)
def pair(dims, n):
    return spaces.build(factors_of(dims, n),
                        "cube" if len(dims) > 1 and set(dims) == {1} else "tp")


@functools.lru_cache(None)
def onb(dims, n):
    return mp.orthonormal_basis_for_space(*pair(dims, n))


@functools.lru_cache(None)
def mono(dims, n):
    return mp.monomial_basis_for_space(*pair(dims, n))


@functools.lru_cache(None)
def nodes(dims, n, kind):
    if sum(dims) == 0:
        return np.zeros((0, 1))
    f = (mp.edge_clustered_nodes_for_space if kind == "edge"
         else mp.equispaced_nodes_for_space)
    x = f(*pair(dims, n))
    return x[:, ::-1].copy() if kind == "reversed" else x


@functools.lru_cache(None)
def resample(dims, n, kind, n2, kind2, how):
    x, y = nodes(dims, n, kind), nodes(dims, n2, kind2)
    if how == "resampling_matrix":
        return mp.resampling_matrix(onb(dims, n).functions, y, x)
    b = (onb if how == "onb" else mono)(dims, n).functions
    return np.linalg.solve(mp.vandermonde(b, x).T, mp.vandermonde(b, y).T).T


@functools.lru_cache(None)
def to_points(dims, n, kind, key):
    """Interpolation to a point set named by *key*."""
    return mp.resampling_matrix(onb(dims, n).functions, point_set(dims, n, key),
                                nodes(dims, n, kind))


@functools.lru_cache(None)
def point_set(dims, n, key):
    if key[0] == "face":
        f = faces(dims)[key[1]]
        fd = face_dims(dims)
        return f.map_to_volume(nodes(fd, n, key[2]))
    if key[0] == "face-quad":
        f = faces(dims)[key[1]]
        return f.map_to_volume(quad(face_dims(dims), n).nodes)
    if key[0] == "quad":
        return quad(dims, n).nodes
    a, b = affine(dims)
    return AffineMap(a, b)(nodes(dims, n, key[1]))


@functools.lru_cache(None)
def affine(dims):
    """A map of the shape into itself which keeps the space."""
    D = sum(dims)
    a, b, o = np.zeros((D, D)), np.zeros(D), 0
    for i, d in enumerate(dims):
        # half the simplex, the axes permuted
        for k in range(d):
            a[o + k, o + (k + 1) % d] = 0.5
            b[o + k] = -0.5 + (0.25 if k == 0 else 0.0) * (1 + i % 2)
        o += d
    return a, b


@functools.lru_cache(None)
def faces(dims):
    return mp.faces_for_shape(pair(dims, 1)[1])


def face_dims(dims):
    return (dims[0] - 1,) if len(dims) == 1 else dims[1:]


def has_faces(dims):
    return dims != (0,) and (len(dims) == 1 or set(dims) == {1})


@functools.lru_cache(None)
def face_rows(dims, i):
    """The face map from the vertices of the face: rows of (A, b)."""
    D = sum(dims)
    v = ref_vertices(dims)[:, list(faces(dims)[i].volume_vertex_indices)]
    fd = D - 1
    # the images of the unit vectors are the first vertices next to the origin
    a = (v[:, 1:1 + fd] - v[:, :1]) / 2
    b = v[:, 0] + a.sum(axis=1)
    return [(tuple(a[k]), float(b[k])) for k in range(D)], a


def ref_vertices(dims):
    return np.asarray(mp.unit_vertices_for_shape(pair(dims, 1)[1]))


@functools.lru_cache(None)
def diffs(dims, n, kind):
    """The differentiation matrices by every route."""
    b, x = onb(dims, n), nodes(dims, n, kind)
    D = sum(dims)
    out = []
    d = mp.differentiation_matrices(b.functions, b.gradients, x)
    out.append(d if isinstance(d, tuple) else (d,))
    d = mp.diff_matrices(b, x)
    out.append(d if isinstance(d, tuple) else (d,))
    V = mp.vandermonde(b.functions, x)
    out.append(tuple(np.linalg.solve(V.T, mp.vandermonde(b.derivatives(k), x).T).T
                     for k in range(D)))
    m = mono(dims, n)
    Vm = mp.vandermonde(m.functions, x)
    out.append(tuple(np.linalg.solve(Vm.T, mp.vandermonde(m.derivatives(k), x).T).T
                     for k in range(D)))
    return out


@functools.lru_cache(None)
def quad(dims, n):
    if dims == (0,):
        return mp.ZeroDimensionalQuadrature()
    return mp.quadrature_for_space(*pair(dims, 2 * n))


@functools.lru_cache(None)
def masses(dims, n, kind):
    b, x = onb(dims, n), nodes(dims, n, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = [mp.mass_matrix(b, x), np.linalg.inv(mp.inverse_mass_matrix(b, x))]
        q = quad(dims, n)
        m.append(mp.nodal_quadrature_bilinear_form_matrix(
            q, b.functions, b.functions, b.functions, b.functions, x))
        t = mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, x)
        m.append(t @ to_points(dims, n, kind, ("quad",)))
    return m


@functools.lru_cache(None)
def project(dims, n, kind):
    """Nodal values -> modal coefficients by quadrature -> nodal values."""
    b, q = onb(dims, n), quad(dims, n)
    modal = (mp.vandermonde(b.functions, q.nodes) * q.weights[:, None]).T
    return mp.vandermonde(b.functions, nodes(dims, n, kind)) @ (
        modal @ to_points(dims, n, kind, ("quad",)))


@functools.lru_cache(None)
def integral_rule(dims, n):
    return ref.tp_rule(list(dims), [2 * n + 1] * len(dims))


def integrate(p, dims, n):
    x, w = integral_rule(dims, n)
    return float(p_eval(p, x) @ w)

# }}}


class MODEL(Model):
    id = "C32"
    bounds = ("7 shapes (segment, triangle, tetrahedron, square, cube, both prisms) x 3 "
              "polynomials x 2 start node sets x every chain of up to 3 (thorough 4) "
              "operators out of: resampling to the other node sets and to the next "
              "higher and lower order, differentiation along each axis, multiplication "
              "by each coordinate, restriction to each face, L2 projection, affine "
              "pull-back")
    assumptions = ["polynomials of the model are kept in the monomial basis; all numbers "
                   "are small, so their rounding is far below the tolerance"]

    def init(self, tier):
        for i, dims in enumerate(SHAPES):
            for s in range(3):
                for k in (0, 1):
                    yield (dims, s, max(s, 1) + (sum(dims) < 3), KINDS[k], s, ((dims, k),))

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def events(self, state, tier):
        dims, seed, n, kind, deg, path = state
        if len(path) - 1 >= self.depth(tier) or dims == (0,):
            return
        D = sum(dims)
        for k in KINDS:
            if k != kind:
                yield ("to", n, k)
        top = {1: 6, 2: 5, 3: 4}[D]
        if n < top:
            yield ("to", n + 1, kind)
        if n > 1 and deg < n:
            yield ("to", n - 1, kind)
        for a in range(D):
            yield ("d", a)
            if deg < n:
                yield ("x", a)
        if has_faces(dims):
            for i in range(len(faces(dims))):
                yield ("face", i)
        yield ("proj",)
        yield ("aff",)

    def step(self, state, ev):
        dims, seed, n, kind, deg, path = state
        path = (*path, ev)
        if ev[0] == "to":
            n, kind = ev[1:]
        elif ev[0] == "d":
            if len(dims) == 1:
                deg = max(deg - 1, 0)
        elif ev[0] == "x":
            deg += 1
        elif ev[0] == "face":
            dims = face_dims(dims)
        return (dims, seed, n, kind, deg, path)

    def describe(self, state):
        dims, seed, n, kind, deg, path = state
        return {"shape": list(dims), "order": n, "nodes": kind, "seed": seed,
                "from": list(path[0][0]), "start": KINDS[path[0][1]],
                "path": [list(e) for e in path[1:]]}

    # -- replay -------------------------------------------------------------------
    def prepare(self, tier):
        self._cache = {}

    def run(self, ctx, seed, path, check):
        """(dims, n, kind, polynomial, nodal values) after *path*."""
        key = (seed, path)
        if not check and key in self._cache:
            return self._cache[key]
        if len(path) == 1:
            dims0, k = path[0]
            n = max(seed, 1) + (sum(dims0) < 3)
            kind = KINDS[k]
            p = seeds(dims0)[seed]
            out = (dims0, n, kind, p, p_eval(p, nodes(dims0, n, kind)))
        else:
            dims, n, kind, p, v = self.run(ctx, seed, path[:-1], False)
            ev = path[-1]
            alts = []
            if ev[0] == "to":
                n2, k2 = ev[1:]
                alts = [(h, resample(dims, n, kind, n2, k2, h) @ v)
                        for h in ("resampling_matrix", "onb", "mono")]
                n, kind = n2, k2
            elif ev[0] == "d":
                alts = [(f"route {i}", d[ev[1]] @ v)
                        for i, d in enumerate(diffs(dims, n, kind))]
                p = p_diff(p, ev[1])
            elif ev[0] == "x":
                D = sum(dims)
                p = p_mul(p, {tuple(int(j == ev[1]) for j in range(D)): 1.0})
                alts = [("pointwise", v * nodes(dims, n, kind)[ev[1]])]
            elif ev[0] == "face":
                fd = face_dims(dims)
                alts = [("restriction",
                         to_points(dims, n, kind, ("face", ev[1], kind)) @ v)]
                p = p_compose(p, face_rows(dims, ev[1])[0], sum(fd))
                dims = fd
                if fd == (0,):
                    n = 0
            elif ev[0] == "proj":
                alts = [("projection", project(dims, n, kind) @ v)]
            elif ev[0] == "aff":
                a, b = affine(dims)
                alts = [("pull-back", to_points(dims, n, kind, ("aff", kind)) @ v)]
                p = p_compose(p, [(tuple(a[k]), float(b[k])) for k in range(len(b))],
                              sum(dims))
            if check:
                want = p_eval(p, nodes(dims, n, kind))
                # size of what was cancelled on the way
                scale = 1 + np.abs(v).max() * (n * n + 1) + np.abs(want).max()
                for h, got in alts:
                    ctx.close((ev[0], h), got, want, 1e-9 * scale)
            out = (dims, n, kind, p, alts[0][1])
        if len(path) <= 3:
            self._cache[key] = out
        return out

    def observe(self, state, ctx):
        dims, n, kind, p, v = self.run(ctx, state[1], state[5], True)
        path = state[5]
        if dims == (0,):
            return
        D = sum(dims)
        scale = 1 + np.abs(v).max()
        one = np.ones(len(v))
        exact = integrate(p, dims, n)
        norm2 = integrate(p_mul(p, p), dims, 2 * n)
        for i, m in enumerate(masses(dims, n, kind)):
            ctx.close(("integral", i), one @ (m @ v), exact, 1e-9 * scale)
            ctx.close(("norm", i), v @ (m @ v), norm2, 1e-8 * scale ** 2)
        q = quad(dims, n)
        at = to_points(dims, n, kind, ("quad",)) @ v
        ctx.close("quadrature", at @ q.weights, exact, 1e-9 * scale)
        if len(path) > 3 or not has_faces(dims):
            return
        # Gauss' theorem, the operators on both sides
        bnd = np.zeros(D)
        fd = face_dims(dims)
        fq = quad(fd, n)
        for i, f in enumerate(faces(dims)):
            a = face_rows(dims, i)[1]
            area = math.sqrt(np.linalg.det(a.T @ a)) if fd != (0,) else 1.0
            on = to_points(dims, n, kind, ("face-quad", i)) @ v
            bnd += mp.face_normal(f) * area * (on @ fq.weights)
        m = masses(dims, n, kind)[0]
        for k in range(D):
            inner = one @ (m @ (diffs(dims, n, kind)[0][k] @ v))
            ctx.close(("gauss", k), inner, bnd[k], 1e-8 * scale * (n * n + 1))
            ctx.close(("gauss exact", k), bnd[k], integrate(p_diff(p, k), dims, n),
                      1e-8 * scale * (n * n + 1))

