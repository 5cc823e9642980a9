"""C19: mass matrices, quadrature test matrices and bilinear forms."""
import numpy as np

import modepy as mp
from mc import ref, spaces
from mc.checks.c17 import node_set
from mc.engine import GridModel


def quad_for(factors, extra=0):
    space, shape = spaces.build([(d, 2 * n + extra) for d, n in factors])
    return mp.quadrature_for_space(space, shape)


def lagrange(factors, nodes, x):
    """Reference Lagrange basis at x: (nnodes, npts)."""
    return np.linalg.solve(ref.tp_basis(factors, nodes), ref.tp_basis(factors, x))


def affine(D, which):
    """Node maps used as test_function_node_map (into the shape)."""
    if which == "none":
        return None
    if which == "shrink":
        return lambda x: 0.5 * x - 0.25
    return lambda x: x[::-1] * 1.0      # swaps the axes


class MODEL(GridModel):
    id = "C19"
    bounds = ("every P^n on simplices of dim 1..3 and every supported product below; 3 "
              "unisolvent node sets; mass and inverse mass; quadrature-based test and "
              "bilinear-form matrices for every ordered pair of (test, trial) spaces of "
              "orders 0..4 with distinct input/output nodes and node maps, with one "
              "shared or separate function lists; the same with arbitrary rules (any node "
              "count, signed weights), node arrays shared with the rule and differentiated "
              "test and trial functions; every face "
              "of every supported shape for the face matrices; tensor product diagonal "
              "mass")
    assumptions = ["the reference mass matrix is computed with a rule validated by "
                   "setup_cmd"]

    def grids(self, tier):
        q = tier == "quick"
        self.fl = spaces.factor_lists(
            {1: 10 if q else 16, 2: 6 if q else 9, 3: 4 if q else 6},
            {2: [0, 1, 2, 3] if q else [0, 1, 2, 3, 4],
             3: [0, 1] if q else [0, 1, 2]},
            max_dim=4, max_size=100 if q else 200)
        # a few spaces of larger order
        self.fl += [((1, 15),), ((1, 24),), ((2, 10),), ((3, 6),), ((1, 8), (1, 7)), ((2, 4), (1, 5))]
        yield "mass", {"f": list(range(len(self.fl))), "nodes": ["eq", "ec", "perm"],
                       "arg": ["basis", "functions"]}
        self.dl = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 1, 1)]
        om = range(4) if q else range(6)
        yield "bilinear", {"d": list(range(len(self.dl))), "test": list(om),
                           "trial": list(om), "kind": ["onb", "monomial"],
                           "out": ["same", "other"], "map": ["none", "shrink", "swap"],
                           "share": [0, 1]}
        yield "custom", {"d": list(range(len(self.dl))), "test": list(range(3 if q else 5)),
                         "trial": list(range(3 if q else 5)), "dt": [-1, 0, 1, 2],
                         "dr": [-1, 0, 1, 2], "nq": ["trial", "test", "one", "more"],
                         "share": ["fresh", "in", "out", "map"]}
        yield "test", {"d": list(range(len(self.dl))), "n": list(om),
                       "kind": ["onb", "monomial"], "nodes": ["eq", "ec", "quad"],
                       "qdeg": [1, 2, 5], "map": ["none", "shrink", "swap"]}
        yield "face", {"shape": ["s1", "s2", "s3", "c2", "c3"], "face": list(range(6)),
                       "nv": list(range(0, 4 if q else 6)),
                       "nf": list(range(0, 4 if q else 6))}
        yield "diag", {"dims": [2, 3], "n": list(range(0, 6)),
                       "rule": ["lg", "lgl", "mixed", "signed"]}
        yield "bad", {"case": list(range(9))}

    def describe(self, state):
        name, cfg = self.config(state)
        if name == "mass":
            return {"grid": name, **cfg, "f": [list(x) for x in self.fl[cfg["f"]]]}
        if "d" in cfg:
            return {"grid": name, **cfg, "d": list(self.dl[cfg["d"]])}
        return {"grid": name, **cfg}

    def valid(self, name, cfg):
        if name == "custom":
            dims = self.dl[cfg["d"]]
            n = {"trial": cfg["trial"], "test": cfg["test"], "in": cfg["trial"],
                 "out": cfg["test"]}
            if cfg["share"] in ("in", "out") and n[cfg["share"]] != n.get(cfg["nq"]):
                return False
            return (max(cfg["dt"], cfg["dr"]) < sum(dims)
                    and (sum(dims) < 3 or self.tier != "quick"
                         or (max(cfg["test"], cfg["trial"]) < 2
                             and max(cfg["dt"], cfg["dr"]) in (-1, 2))))
        if name in ("bilinear", "test"):
            dims = self.dl[cfg["d"]]
            if cfg.get("share") and cfg["test"] != cfg["trial"]:
                return False
            if cfg["map"] == "swap" and (len(dims) == 2 and dims[0] != dims[1]
                                         or sum(dims) == 1):
                return False
            return sum(dims) < 3 or max(cfg.get("n", 0), cfg.get("test", 0),
                                        cfg.get("trial", 0)) <= 3
        if name == "face":
            return cfg["face"] < {"s1": 2, "s2": 3, "s3": 4, "c2": 4, "c3": 6}[
                cfg["shape"]]
        return True

    def obs_mass(self, ctx, f, nodes, arg):
        factors = self.fl[f]
        b = spaces.basis_of("onb", factors)
        x = node_set(factors, nodes)
        V = ref.tp_basis(factors, x).T
        c = ref.cond(V)
        n = V.shape[1]
        a = b if arg == "basis" else b.functions
        Minv = mp.inverse_mass_matrix(a, x)
        M = mp.mass_matrix(a, x)
        want = V @ V.T
        ctx.close("inverse", Minv, want, 1e-11 * np.abs(want).max())
        # the mass matrix integrates products of members of the space
        xq, wq = spaces.rule_for(tuple(factors))
        L = lagrange(factors, x, xq)
        wm = (L * wq) @ L.T
        ctx.close("mass", M, wm, 1e-13 * (c * c + 100) * (1 + np.abs(wm).max()))
        ctx.close("product", M @ Minv, np.eye(n), 1e-13 * (c * c + 100))
        vol = float(ref.volume([d for d, _ in factors]))
        ctx.close("volume", M.sum(), vol, 1e-12 * (c * c + 100))
        ctx.close("symmetric", M, M.T, 1e-13 * (c * c + 100) * (1 + np.abs(wm).max()))

    def _fns(self, kind, factors):
        return spaces.basis_of(kind, factors).functions

    def obs_bilinear(self, ctx, d, test, trial, kind, out, map, share):
        dims = self.dl[d]
        ft, fr = [(k, test) for k in dims], [(k, trial) for k in dims]
        D = sum(dims)
        q = quad_for([(k, max(test, trial)) for k in dims])
        xin = node_set(fr, "ec")
        xout = node_set(ft, "eq")
        m = affine(D, map)
        # one list object in all roles, or a fresh list for each
        tt, rr = self._fns(kind, ft), self._fns(kind, fr)
        ti, ri = self._fns(kind, ft), self._fns(kind, fr)
        if share:
            rr = ti = ri = tt
        kw = {} if m is None else {"test_function_node_map": m}
        if out == "same":
            if test != trial:
                ctx.raises("unisolvent", ValueError, lambda:
                           mp.nodal_quadrature_bilinear_form_matrix(
                               q, tt, rr, ti, ri, xin, **kw))
                return
            xout = xin
        else:
            kw["output_nodes"] = xout
        A = mp.nodal_quadrature_bilinear_form_matrix(
            q, tt, rr, ti, ri, xin, **kw)
        mid = (m or (lambda z: z))(q.nodes)
        Lt, Lr = lagrange(ft, xout, mid), lagrange(fr, xin, q.nodes)
        want = (Lt * q.weights) @ Lr.T
        ctx.close("matrix", A, want, 1e-9 * (1 + np.abs(want).max()))
        if map == "none":
            # with an exact rule this is the continuous form
            deg = [2 * max(test, trial)] * len(dims)
            xq, wq = ref.tp_rule(dims, deg)
            wc = (lagrange(ft, xout, xq) * wq) @ lagrange(fr, xin, xq).T
            ctx.close("continuous", A, wc, 1e-9 * (1 + np.abs(wc).max()))

    def obs_custom(self, ctx, d, test, trial, dt, dr, nq, share):
        """Any quadrature rule (any node count, weights of either sign), any of the
        node arrays shared with the rule, test and trial functions differentiated."""
        dims = self.dl[d]
        ft, fr = [(k, test) for k in dims], [(k, trial) for k in dims]
        nt, nr = ref.space_dim(ft), ref.space_dim(fr)
        m = {"trial": nr, "test": nt, "one": 1, "more": nt + nr + 1}[nq]
        x = ref.generic_points(dims, m)
        q = mp.Quadrature(x, np.cos(1.3 * np.arange(m)) + 0.2)
        xin, xout = node_set(fr, "ec"), node_set(ft, "eq")
        if share == "in":
            xin = x
        if share == "out":
            xout = x
        for f, y in ((fr, xin), (ft, xout)):
            if not ref.cond(ref.tp_basis(f, y)) < 1e6:
                return
        shift = affine(sum(dims), "shrink")
        kw = {"test_function_node_map": shift} if share == "map" else {}
        xt = shift(x) if share == "map" else x

        bt, br = spaces.basis_of("onb", ft), spaces.basis_of("onb", fr)
        tt = bt.functions if dt < 0 else bt.derivatives(dt)
        rr = br.functions if dr < 0 else br.derivatives(dr)

        def lag(f, nodes, y, ax):
            v = ref.tp_basis(f, y) if ax < 0 else ref.tp_grad(f, y)[ax]
            return np.linalg.solve(ref.tp_basis(f, nodes), v)
        x0, w0, i0, o0 = x.copy(), q.weights.copy(), xin.copy(), xout.copy()
        A = mp.nodal_quadrature_bilinear_form_matrix(
            q, tt, rr, bt.functions, br.functions, xin, xout, **kw)
        Lt, Lr = lag(ft, xout, xt, dt), lag(fr, xin, x, dr)
        want = (Lt * q.weights) @ Lr.T
        ctx.close("form", A, want, 1e-9 * (1 + np.abs(want).max()))
        T = mp.nodal_quadrature_test_matrix(q, tt, bt.functions, xout, **kw)
        want = Lt * q.weights
        ctx.close("test", T, want, 1e-9 * (1 + np.abs(want).max()))
        if share == "none" or dt >= 0:
            from modepy.matrices import modal_quad_mass_matrix
            mm = modal_quad_mass_matrix(q, tt)
            wm = np.array([np.broadcast_to(g(x), (m,)) * q.weights for g in tt])
            ctx.close("modal", mm, wm, 1e-12 * (1 + np.abs(wm).max()))
        if dt < 0:
            old = mp.nodal_quad_mass_matrix(q, bt.functions, xout)
            if share != "map":
                ctx.close("deprecated", old, want, 1e-9 * (1 + np.abs(want).max()))
        for a, b in ((q.nodes, x0), (q.weights, w0), (xin, i0), (xout, o0)):
            ctx.close("unchanged", a, b, 0)

    def obs_test(self, ctx, d, n, kind, nodes, qdeg, map):
        dims = self.dl[d]
        factors = [(k, n) for k in dims]
        D = sum(dims)
        q = quad_for(factors, qdeg)
        fns = self._fns(kind, factors)
        m = affine(D, map)
        kw = {} if m is None else {"test_function_node_map": m}
        if nodes == "quad":
            if q.nodes.shape[1] != len(fns):
                ctx.raises("unisolvent", ValueError, lambda:
                           mp.nodal_quadrature_test_matrix(q, fns, fns, **kw))
                return
            x = q.nodes
            if not ref.cond(ref.tp_basis(factors, x)) < 1e8:
                return
        else:
            x = node_set(factors, nodes)
            kw["nodes"] = x
        A = mp.nodal_quadrature_test_matrix(q, fns, fns, **kw)
        mid = (m or (lambda z: z))(q.nodes)
        want = lagrange(factors, x, mid) * q.weights
        ctx.close("matrix", A, want, 1e-9 * (1 + np.abs(want).max()))
        if map == "none":
            old = mp.nodal_quad_mass_matrix(q, fns, *([] if nodes == "quad" else [x]))
            ctx.close("deprecated", old, want, 1e-9 * (1 + np.abs(want).max()))
            from modepy.matrices import modal_quad_mass_matrix
            mm = modal_quad_mass_matrix(q, fns)
            wm = np.array([g(q.nodes) * q.weights for g in fns])
            ctx.close("modal", mm, wm, 1e-12 * (1 + np.abs(wm).max()))

    def obs_face(self, ctx, shape, face, nv, nf):
        D = int(shape[1])
        cube = shape[0] == "c"
        vol = mp.Hypercube(D) if cube else mp.Simplex(D)
        fc = mp.faces_for_shape(vol)[face]
        fac = [(1, nv)] * D if cube else [(D, nv)]
        fdim = [1] * (D - 1) if cube else [D - 1]
        ffac = [(k, nf) for k in fdim]
        vsp = mp.QN(D, nv) if cube else mp.PN(D, nv)
        fsp = mp.space_for_shape(fc, nf)
        fq = mp.quadrature_for_space(mp.space_for_shape(fc, nv + nf + 1), fc)
        tf = mp.orthonormal_basis_for_space(vsp, vol).functions
        rf = mp.orthonormal_basis_for_space(fsp, fc).functions
        vn = mp.edge_clustered_nodes_for_space(vsp, vol)
        fn = mp.edge_clustered_nodes_for_space(fsp, fc)
        rules = [fq]
        if D > 1:
            # any rule: more points, weights of either sign
            x = ref.generic_points(fdim, len(tf) + 3)
            rules.append(mp.Quadrature(x, np.cos(1.3 * np.arange(x.shape[1])) + 0.2))
        for fq in rules:
            mapped = fc.map_to_volume(fq.nodes)
            Lv = lagrange(fac, vn, mapped)
            if D == 1:
                Lf = np.ones((1, fq.nodes.shape[1]))
            else:
                Lf = lagrange(ffac, fn, fq.nodes)
            want = (Lv * fq.weights) @ Lf.T
            tol = 1e-9 * (1 + np.abs(want).max())
            got = mp.nodal_mass_matrix_for_face(fc, fq, rf, tf, vn, fn)
            ctx.close("nodal", got, want, tol)
            new = mp.nodal_quadrature_bilinear_form_matrix(
                fq, tf, rf, tf, rf, fn, vn, test_function_node_map=fc.map_to_volume)
            ctx.close("bilinear", new, want, tol)
            V = np.array([np.broadcast_to(g(mapped), mapped.shape[1:]) for g in tf])
            R = np.array([np.broadcast_to(g(fq.nodes), mapped.shape[1:]) for g in rf])
            mm = mp.modal_mass_matrix_for_face(fc, fq, rf, tf)
            wm = (V * fq.weights) @ R.T
            ctx.close("modal", mm, wm, 1e-10 * (1 + np.abs(wm).max()))
            mq = mp.modal_quad_mass_matrix_for_face(fc, fq, tf)
            ctx.close("modal-quad", mq, V * fq.weights, 1e-11 * (1 + np.abs(V).max()))
            nq = mp.nodal_quad_mass_matrix_for_face(fc, fq, tf, vn)
            ctx.close("nodal-quad", nq, Lv * fq.weights, 1e-9 * (1 + np.abs(Lv).max()))
            nt = mp.nodal_quadrature_test_matrix(
                fq, tf, tf, nodes=vn, test_function_node_map=fc.map_to_volume)
            ctx.close("nodal-test", nt, Lv * fq.weights, 1e-9 * (1 + np.abs(Lv).max()))

    def obs_diag(self, ctx, dims, n, rule):
        if rule == "lg":
            q = mp.LegendreGaussTensorProductQuadrature(n, dims)
        elif rule == "lgl":
            if n == 0:
                return
            q = mp.LegendreGaussLobattoTensorProductQuadrature(n, dims)
        elif rule == "signed":
            # a rule with negative weights (open Newton-Cotes) on every axis in turn
            q = mp.TensorProductQuadrature(
                [mp.Quadrature(np.array([[-0.5, 0, 0.5]]), np.array([4., -2, 4]) / 3,
                               exact_to=3) if k == n % dims else
                 mp.LegendreGaussQuadrature(n + k, force_dim_axis=True)
                 for k in range(dims)])
        else:
            q = mp.TensorProductQuadrature(
                [mp.LegendreGaussQuadrature(n + k, force_dim_axis=True)
                 for k in range(dims)])
        w0 = q.weights.copy()
        m = mp.spectral_diag_nodal_mass_matrix(q)
        ctx.close("weights", m, w0, 0)
        ctx.true("fresh", not np.shares_memory(m, q.weights))
        if rule == "signed":
            ctx.true("sign", (m < 0).sum() * 3 == len(m))
        elif rule != "lgl":
            # exact on the Lagrange basis of the Gauss nodes: equals the mass matrix
            fac = [(1, n + (k if rule == "mixed" else 0)) for k in range(dims)]
            x, w = ref.tp_rule([1] * dims, [2 * k for _, k in fac])
            L = lagrange(fac, q.nodes, x)
            M = (L * w) @ L.T
            ctx.close("mass", np.diag(m), M, 1e-11)

    def obs_bad(self, ctx, case):
        s, sp = mp.Simplex(2), mp.PN(2, 2)
        b = mp.orthonormal_basis_for_space(sp, s)
        mb = mp.monomial_basis_for_space(sp, s)
        x = mp.edge_clustered_nodes_for_space(sp, s)
        q = mp.XiaoGimbutasSimplexQuadrature(4, 2)
        f = b.functions
        y = x[:, :-1]
        B = mp.nodal_quadrature_bilinear_form_matrix
        cases = [
            (NotImplementedError, lambda: mp.inverse_mass_matrix(mb, x)),
            (NotImplementedError, lambda: mp.mass_matrix(mb, x)),
            (ValueError, lambda: mp.nodal_quadrature_test_matrix(q, f, f, y)),
            (ValueError, lambda: B(q, f, f, f, f, y)),
            (ValueError, lambda: B(q, f, f, f, f, x, y)),
            (ValueError, lambda: mp.spectral_diag_nodal_mass_matrix(q)),
            (ValueError, lambda: mp.spectral_diag_nodal_mass_matrix(
                mp.TensorProductQuadrature([q, mp.LegendreGaussQuadrature(
                    2, force_dim_axis=True)]))),
            (ValueError, lambda: mp.nodal_quad_mass_matrix(q, f, y)),
            (ValueError, lambda: mp.nodal_quad_mass_matrix_for_face(
                mp.faces_for_shape(s)[0],
                mp.LegendreGaussQuadrature(3, force_dim_axis=True), f, y)),
        ]
        exc, fn = cases[case]
        ctx.raises("rejected", exc, fn)
