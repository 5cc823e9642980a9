"""Enumeration of the polynomial-space configurations shared by the basis, node and
matrix checks."""
import functools
import itertools

import numpy as np

import modepy as mp
from mc import ref
from mc.shapes import shape_of, space_of, supported


def factor_lists(max_single, prod_orders, max_factors=3, max_dim=4, zero=False,
                 max_size=400):
    """All supported factor lists: single simplices up to the given order per dimension,
    and products of 2..max_factors factors with every mixed order combination."""
    out = [((d, n),) for d, m in max_single.items() for n in range(m + 1)]
    dims = [0, 1, 2, 3] if zero else [1, 2, 3]
    for k in range(2, max_factors + 1):
        for ds in itertools.product(dims, repeat=k):
            if not supported(ds) or sum(ds) > max_dim:
                continue
            for ns in itertools.product(prod_orders[k], repeat=k):
                f = tuple(zip(ds, ns))
                if ref.space_dim(f) <= max_size:
                    out.append(f)
    return out


def styles(factors):
    out = ["tp"]
    if len(factors) > 2:
        out.append("nested")
    if len(factors) >= 2 and all(d == 1 for d, _ in factors) \
            and len({n for _, n in factors}) == 1:
        out.append("cube")
    return out


def build(factors, style="tp"):
    factors = tuple(factors)
    if len(factors) == 1:
        return space_of(factors, "simplex"), shape_of([factors[0][0]], "simplex")
    return space_of(factors, style), shape_of([d for d, _ in factors], style)


def basis_of(kind, factors, style="tp"):
    space, shape = build(factors, style)
    return {"default": mp.basis_for_space, "onb": mp.orthonormal_basis_for_space,
            "monomial": mp.monomial_basis_for_space}[kind](space, shape)


@functools.lru_cache(64)
def rule_for(factors):
    """Reference rule exact for products of two members of the space."""
    return ref.tp_rule([d for d, _ in factors], [2 * n for _, n in factors])


def coefficients(fns, factors):
    """Coefficients (nfunctions, nmodes) of modepy functions in the reference basis."""
    x, w = rule_for(tuple(factors))
    V = np.array([np.broadcast_to(f(x), x.shape[1:]) for f in fns])
    R = ref.tp_basis(factors, x)
    return (V * w) @ R.T, V, R


def points(dims, which):
    """Named evaluation point families of a shape."""
    if which == "generic":
        return ref.generic_points(dims, 9)
    if which == "vertices":
        return ref.vertices(dims).T.copy()
    if which == "lattice2":
        return ref.lattice(dims, 2)
    if which == "lattice3":
        return ref.lattice(dims, 3)
    if which == "lattice4":
        return ref.lattice(dims, 4)
    if which.startswith("near"):
        # close to every vertex, just inside
        eps = float(which[4:])
        v = ref.vertices(dims).T
        c = ref.generic_points(dims, 1)
        return v + eps * (c - v)
    if which.startswith("all-"):
        # several epsilons in one batch: all-near, all-sidenear
        return np.concatenate([points(dims, which[4:] + e) for e in EPS[2:]], axis=1)
    if which.startswith("sidenear"):
        # close to every edge and face barycenter, just inside
        eps = float(which[8:])
        v = ref.vertices(dims).T
        c = ref.generic_points(dims, 1)
        n = v.shape[1]
        b = [v[:, i] * t + v[:, j] * (1 - t) for i in range(n) for j in range(i)
             for t in (0.3, 0.85)]
        b += [v[:, list(k)].mean(axis=1) for k in itertools.combinations(range(n), 3)]
        if not b:
            return v[:, :0]
        b = np.array(b).T
        return b + eps * (c - b)
    if which == "edges":
        v = ref.vertices(dims).T
        n = v.shape[1]
        return np.array([v[:, i] * t + v[:, j] * (1 - t) for i in range(n)
                         for j in range(i) for t in (0.25, 0.5, 0.9)]).reshape(
                             3 * n * (n - 1) // 2, sum(dims)).T.copy()
    raise KeyError(which)


EPS = ["1e-13", "1e-11", "1e-9", "1e-8", "1e-7", "3e-7", "1e-6", "1e-5", "1e-4",
       "1e-3"]
FAMILIES = ["generic", "vertices", "lattice2", "lattice3", "edges",
            *("near" + e for e in EPS), *("sidenear" + e for e in EPS)]


def flat(x):
    if isinstance(x, tuple):
        return tuple(a for y in x for a in flat(y))
    return (int(x),)
