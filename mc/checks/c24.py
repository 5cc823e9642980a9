"""C24: modal decay: degree vectors, tail-coefficient matrices, decay fits."""
import itertools
import math
import warnings

import numpy as np

import modepy as mp
import modepy.modal_decay as md
from mc import ref, spaces
from mc.engine import GridModel

FITS = [(1, n) for n in range(2, 13)] + [(2, n) for n in range(1, 7)] + \
    [(3, n) for n in range(1, 5)]
ALPHA = [1.0, 0.1, -0.01]


def jump(x):
    return np.where(x > 0.3, 1.0, -1.0)


FUNCS = {"jump": jump, "kink": lambda x: np.abs(x - 0.3), "exp": np.exp}
SCALES = [1e-9, 1e-6, -1e-5, 1e-3, 1.0, 1e3]


def node_set(kind, factors):
    space, shape = spaces.build(factors)
    if kind == "edge":
        return mp.edge_clustered_nodes_for_space(space, shape)
    if kind == "equi":
        return mp.equispaced_nodes_for_space(space, shape)
    if kind == "reversed":
        return mp.equispaced_nodes_for_space(space, shape)[:, ::-1].copy()
    raise KeyError(kind)


def totals(dims, n):
    """Total degrees of the modes, in the documented order of mode_ids."""
    return np.array([sum(t) for t in itertools.product(range(n + 1), repeat=dims)
                     if sum(t) <= n])


def ref_fit(coeffs, dims, n, ignored):
    """Least squares fit log|c_k| ~ log(const) + expn log(k) after skyline
    pessimization, for coefficients so small that the noise floor is negligible."""
    deg = totals(dims, n)[ignored:].astype(float)
    c = np.abs(coeffs)
    sky = c.copy()
    sky[:, -1] = np.maximum(c[:, -1], c[:, -2])
    for i in range(c.shape[1] - 2, -1, -1):
        sky[:, i] = np.maximum(c[:, i], sky[:, i + 1])
    A = np.stack([np.ones_like(deg), np.log(np.maximum(deg, 1.0))], axis=1)
    sol = np.linalg.lstsq(A, np.log(sky[:, ignored:]).T, rcond=None)[0]
    return sol[1], np.exp(sol[0])


class MODEL(GridModel):
    id = "C24"
    bounds = ("every simplex space dim 0..3 and supported product up to the order below "
              "x basis kind x nesting x 3 node orders x every number of tail orders "
              "0..N+2; decay fits: (dim, order) in %s, every coefficient vector over "
              "{1, .1, -.01} for up to 6 modes and every power law k^-s, s = 0.5..6, for "
              "larger ones, 1..3 ignored modes, every batch composition; %s at scales %s"
              % (FITS, list(FUNCS), SCALES))
    assumptions = ["fits are compared where the noise floor of the method is negligible "
                   "(coefficient vectors of norm at most 1e-6)"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {0: 2, 1: 12 if q else 24, 2: 7 if q else 12, 3: 5 if q else 8},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 5], 3: [0, 1, 2]},
            max_dim=4, max_size=120 if q else 300)
        # a few spaces of larger order
        self.fl += [((1, 20),), ((1, 31),), ((2, 10),), ((3, 7),), ((1, 8), (1, 7)), ((2, 4), (1, 5))]
        yield "degree", {"f": list(range(len(self.fl))),
                         "kind": ["onb", "monomial", "default"],
                         "style": ["tp", "nested", "cube"]}
        yield "tail", {"f": list(range(len(self.fl))), "nodes": ["edge", "equi",
                                                                 "reversed"],
                       "kind": ["onb", "monomial"]}
        yield "law", {"d": list(range(len(FITS))),
                      "s": [0.5, 1, 1.5, 2, 3, 4, 6], "amp": [1e-7, 1e-9],
                      "ignored": [0, 1, 2, 3, 4, 6]}
        self.alpha = {k: list(itertools.product(ALPHA, repeat=k))
                      for k in range(3, 7 if q else 9)}
        yield "alphabet", {"size": list(self.alpha), "chunk": list(range(9))}
        yield "batch", {"d": list(range(0, len(FITS), 2 if q else 1)),
                        "rows": list(range(6)), "amp": ["small", "unit", "mixed"]}
        yield "residual", {"d": list(range(len(FITS))), "s": [1, 1.5, 2, 3, 4, 6],
                           "ignored": [0, 1, 2, 3, 4, 6]}
        yield "scale", {"func": list(FUNCS), "n": [5, 10], "scale": SCALES}
        yield "floor", {"d": list(range(len(FITS))), "amp": [1e-3, -0.5, 1, 7.5, 200]}
        yield "bad", {"i": [0]}

    def valid(self, name, cfg):
        if name == "degree":
            return cfg["style"] in spaces.styles(self.fl[cfg["f"]])
        if name in ("law", "residual"):
            d, n = FITS[cfg["d"]]
            # ignored > 3, steep: the noise floor would not be negligible
            return len(totals(d, n)) >= cfg["ignored"] + 2 and n >= 2 and (
                cfg["ignored"] <= 3 or cfg["s"] <= 3)
        return True

    def describe(self, state):
        name, cfg = self.config(state)
        if "f" in cfg:
            cfg["f"] = [list(x) for x in self.fl[cfg["f"]]]
        if "d" in cfg:
            cfg["d"] = FITS[cfg["d"]]
        return {"grid": name, **cfg}

    def obs_degree(self, ctx, f, kind, style):
        factors = self.fl[f]
        b = spaces.basis_of(kind, factors, style)
        want = self._want(factors, b)
        got = md.degree_vector(b)
        ctx.eq("shape", np.shape(got), (ref.space_dim(factors),))
        ctx.true("integers", np.issubdtype(np.asarray(got).dtype, np.integer))
        ctx.close("degrees", got, want, 0)

    @staticmethod
    def _want(factors, basis):
        out = []
        for mid in basis.mode_ids:
            mid = spaces.flat(mid)
            k, m = 0, 0
            for d, _ in factors:
                m = max(m, sum(mid[k:k + d]))
                k += d
            out.append(m)
        return np.array(out)

    def obs_tail(self, ctx, f, nodes, kind):
        factors = self.fl[f]
        if sum(d for d, _ in factors) == 0:
            return
        b = spaces.basis_of(kind, factors)
        x = node_set(nodes, factors)
        deg = self._want(factors, b)
        V = np.array([np.broadcast_to(g(x), x.shape[1:]) for g in b.functions]).T
        cond = np.linalg.cond(V)
        if cond > 1e9:
            return
        x0 = x.copy()
        for t in range(max(n for _, n in factors) + 3):
            C = md.interp_error_coefficient_estimator_matrix(x, t, b)
            want = np.eye(len(deg))[deg > deg.max() - t]
            ctx.eq("shape", C.shape, want.shape)
            # maps the nodal values of mode j to the tail part of e_j
            ctx.close("tail", C @ V, want, 1e-13 * cond + 1e-10)
            if len(factors) == 1 and kind == "onb":
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    S = md.simplex_interp_error_coefficient_estimator_matrix(
                        x, factors[0][1], t)
                ctx.true("deprecated", any(issubclass(i.category, DeprecationWarning)
                                           for i in w))
                ctx.close("simplex", S, C, 1e-12 * cond * (1 + np.abs(C).max(initial=0)))
        ctx.close("unchanged", x, x0, 0)

    # -- fits ----------------------------------------------------------------
    def _fit(self, ctx, c, d, n, ignored=1):
        c0 = c.copy()
        if ignored == 1:
            e, k = md.fit_modal_decay(c, d, n)
        else:
            e, k = md.fit_modal_decay(c, d, n, ignored)
        we, wk = ref_fit(c, d, n, ignored)
        ctx.eq("shape", (np.shape(e), np.shape(k)), ((len(c),), (len(c),)))
        ctx.close("exponent", e, we, 1e-4 * (1 + np.abs(we)))
        ctx.close("constant", k / wk, np.ones(len(c)), 1e-3)
        ctx.close("unchanged", c, c0, 0)
        return e, k

    def obs_law(self, ctx, d, s, amp, ignored):
        dims, n = FITS[d]
        deg = totals(dims, n)
        c = amp * np.maximum(deg, 1.0)**(-s)
        c = np.array([c, c * (-1.0)**np.arange(len(c))])
        if (n**-s) < 1e-3:
            c = c * 10.0
        e, k = self._fit(ctx, c, dims, n, ignored)
        if dims == 1 and s <= 4 and ignored:
            # the last two modes share the larger coefficient: bounded distortion
            sky = np.arange(ignored, n + 1)**(-float(s))
            sky[-1] = sky[-2]
            A = np.stack([np.ones(len(sky)), np.log(np.arange(ignored, n + 1))], axis=1)
            w = np.linalg.lstsq(A, np.log(sky), rcond=None)[0]
            ctx.close("power-law", e, np.full(2, w[1]), 1e-3 * (1 + abs(w[1])))

    def obs_alphabet(self, ctx, size, chunk):
        vecs = np.array(self.alpha[size][chunk::9]) * 1e-7
        self._fit(ctx, vecs, 1, size - 1)
        if size == 3:
            self._fit(ctx, vecs, 2, 1)
        if size == 4:
            self._fit(ctx, vecs, 3, 1)
        if size == 6:
            self._fit(ctx, vecs, 2, 2)

    def obs_batch(self, ctx, d, rows, amp):
        """An element's fit depends on its own coefficients only."""
        dims, n = FITS[d]
        m = len(totals(dims, n))
        c = np.array([[1e-8 * ((7 * i * i + 3 * k + i * k) % 11 - 5.2)
                       / (1 + k)**(1 + 0.3 * i) for k in range(m)] for i in range(6)])
        if amp == "small":
            e, k = self._fit(ctx, c, dims, n)
        else:
            # the noise floor matters here: no reference, only independence
            c = c * (1e8 if amp == "unit" else 1e8 * 10.0**np.arange(-6, 6, 2)[:, None])
            e, k = md.fit_modal_decay(c.copy(), dims, n)
        e1, k1 = md.fit_modal_decay(c[rows:rows + 1], dims, n)
        ctx.close("alone", e1, e[rows:rows + 1], 1e-9)
        ctx.close("alone", k1 / k[rows], np.ones(1), 1e-9)
        p = np.roll(np.arange(6), rows)
        ep, _ = md.fit_modal_decay(c[p], dims, n)
        ctx.close("permuted", ep, e[p], 1e-9)
        ef, _ = md.fit_modal_decay(np.asfortranarray(-c), dims, n)
        ctx.close("negated", ef, e, 1e-9)
        r = md.estimate_relative_expansion_residual(c, dims, n)
        rp = md.estimate_relative_expansion_residual(c[p], dims, n)
        ra = md.estimate_relative_expansion_residual(c[rows:rows + 1], dims, n)
        ctx.close("residual-alone", np.nan_to_num(ra, nan=-1),
                  np.nan_to_num(r[rows:rows + 1], nan=-1), 1e-9)
        ctx.close("residual-permuted", np.nan_to_num(rp, nan=-1),
                  np.nan_to_num(r[p], nan=-1), 1e-9)

    def obs_residual(self, ctx, d, s, ignored):
        dims, n = FITS[d]
        deg = totals(dims, n)
        c = 1e-8 * np.maximum(deg, 1.0)**(-s)
        if (n**-s) < 1e-3:
            c = c * 10.0
        c = np.array([c, -2 * c])
        e, k = ref_fit(c, dims, n, ignored)
        r = md.estimate_relative_expansion_residual(c, dims, n, ignored)
        ctx.eq("shape", r.shape, (2,))
        # left out or named: one ignored mode
        kw = md.estimate_relative_expansion_residual(
            coeffs=c, dims=dims, n=n, ignored_modes=ignored)
        num = np.nan_to_num
        ctx.close("by-name", num(kw), num(r), 0)
        if ignored == 1:
            ctx.close("default", num(md.estimate_relative_expansion_residual(c, dims, n)),
                      num(r), 0)
            ctx.close("default-fit", np.array(md.fit_modal_decay(c, dims, n)),
                      np.array(md.fit_modal_decay(c, dims, n, 1)), 0)
        # sqrt of the integral of (k x^e)^2 over [n + 1, inf), by substitution
        for i in range(2):
            if e[i] > -0.6:
                continue
            p = 2 * e[i] + 1
            want = k[i] * math.sqrt((n + 1)**p / -p) / np.linalg.norm(c[i])
            if want < 0.98:
                ctx.close("residual", r[i], want, 2e-3 * want)
            elif want > 1.02:
                ctx.close("useless", r[i], 0, 0)

    def obs_scale(self, ctx, func, n, scale):
        """The smoothness of a function does not depend on its amplitude."""
        q = mp.LegendreGaussQuadrature(30, force_dim_axis=True)
        b = mp.orthonormal_basis_for_space(mp.PN(1, n), mp.Simplex(1))
        c = np.array([[(q.weights * g(q.nodes) * FUNCS[func](q.nodes[0])).sum()
                       for g in b.functions]])
        base, kb = md.fit_modal_decay(1e-8 * c, 1, n)
        e, k = md.fit_modal_decay(scale * c, 1, n)
        tol = 2e-3 if abs(scale) <= 1e-3 else 1e-2
        ctx.close("exponent", e, base, tol * (1 + np.abs(base)))
        r = md.estimate_relative_expansion_residual(scale * c, 1, n)
        ctx.true("residual-range", bool(((r >= 0) & (r <= 1)).all()), r)

    def obs_floor(self, ctx, d, amp):
        """A constant has the fastest decay the method reports: k^-N."""
        dims, n = FITS[d]
        c = np.zeros((3, len(totals(dims, n))))
        c[0, 0], c[1, 0], c[2, 0] = amp, 2 * amp, -amp
        e, k = md.fit_modal_decay(c, dims, n)
        if n > 1:
            ctx.close("exponent", e, np.full(3, -float(n)), 1e-6 * n)
        ctx.true("constant", bool((np.isfinite(k) & (k > 0)).all()), k)
        ctx.close("sign", k[2], k[0], 1e-9 * k[0])

    def obs_bad(self, ctx, i):
        ctx.raises("basis", TypeError, lambda: md.degree_vector(object()), "object()")
        ctx.raises("basis", TypeError, lambda: md.degree_vector([lambda x: x]), "list")
