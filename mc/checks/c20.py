"""C20: faces: vertices, maps, normals, orientation -- and the divergence theorem."""
import itertools
import math

import numpy as np

import modepy as mp
import modepy.tools as mt
from mc import ref
from mc.engine import GridModel

SHAPES = ["s1", "s2", "s3", "c2", "c3", "c1"]
NF = {"s1": 2, "s2": 3, "s3": 4, "c2": 4, "c3": 6, "c1": 2}


def mk(shape):
    d = int(shape[1])
    if shape[0] == "s":
        return mp.Simplex(d), [d]
    return mp.Hypercube(d), [1] * d


def face_dims(shape):
    d = int(shape[1]) - 1
    return [d] if shape[0] == "s" else [1] * d


class MODEL(GridModel):
    id = "C20"
    bounds = ("all shapes with faces (lines, triangles, tetrahedra, squares, cubes): "
              "every face, every monomial field component up to total degree 6 (thorough "
              "9) in the divergence theorem, every pair of faces for the shared "
              "vertices, every face point family, both normalizations")
    assumptions = ["linearity of the divergence theorem in the field"]

    def grids(self, tier):
        q = tier == "quick"
        deg = range(7 if q else 10)
        yield "face", {"shape": SHAPES, "face": list(range(6)), "norm": [True, False]}
        yield "cover", {"shape": SHAPES}
        yield "pairs", {"shape": SHAPES, "a": list(range(6)), "b": list(range(6))}
        yield "gauss1", {"shape": ["s1", "c1"], "e0": list(deg)}
        yield "gauss2", {"shape": ["s2", "c2"], "e0": list(deg), "e1": list(deg),
                         "comp": [0, 1]}
        yield "gauss3", {"shape": ["s3", "c3"], "e0": list(deg), "e1": list(deg),
                         "e2": list(deg), "comp": [0, 1, 2]}
        yield "functions", {"shape": SHAPES, "face": list(range(6)),
                            "n": list(range(5 if q else 8))}
        yield "points", {"shape": SHAPES, "face": list(range(6)),
                         "npts": [0, 1, 2, 5], "mem": ["C", "F", "ro"]}
        yield "asshape", {"shape": SHAPES, "face": list(range(6)),
                          "n": list(range(5 if q else 9))}
        # faces of faces: the boundary of the boundary, and Stokes' theorem on each face
        yield "edges", {"shape": ["s2", "c2", "s3", "c3"], "face": list(range(6)),
                        "sub": list(range(4))}
        yield "closed", {"shape": ["s2", "c2", "s3", "c3"]}
        yield "stokes", {"shape": ["s3", "c3"], "face": list(range(6)),
                         "comp": [0, 1, 2], "e0": list(deg), "e1": list(deg),
                         "e2": list(deg)}
        yield "nofaces", {"what": list(range(3))}

    def valid(self, name, cfg):
        for k in ("face", "a", "b"):
            if k in cfg and cfg[k] >= NF[cfg["shape"]]:
                return False
        if name == "edges":
            return cfg["sub"] < (NF[cfg["shape"][0] + str(int(cfg["shape"][1]) - 1)])
        if name.startswith("gauss") or name == "stokes":
            lim = (6 if self.tier == "quick" else 9) - 2 * (name == "stokes")
            return sum(cfg[k] for k in cfg if k[0] == "e") <= lim
        return True

    def obs_face(self, ctx, shape, face, norm):
        sh, dims = mk(shape)
        D = sh.dim
        faces = mp.faces_for_shape(sh)
        ctx.eq("count", (len(faces), sh.nfaces), (NF[shape], NF[shape]))
        f = faces[face]
        ctx.true("types", isinstance(f, mp.Face) and isinstance(f, mp.Shape))
        ctx.eq("volume", f.volume_shape, sh)
        ctx.eq("index", f.face_index, face)
        ctx.eq("dim", f.dim, D - 1)
        vv = mp.unit_vertices_for_shape(sh)
        nv = D if shape[0] == "s" else 2 ** (D - 1)
        idx = f.volume_vertex_indices
        ctx.eq("nvertices", (len(idx), len(set(idx)), f.nvertices), (nv, nv, nv))
        # the map takes the face's own vertices to the listed volume vertices, in order
        fv = mp.unit_vertices_for_shape(f)
        ctx.eq("vertex-shape", fv.shape, (D - 1, nv))
        ctx.close("vertex-map", f.map_to_volume(fv), vv[:, list(idx)], 1e-14)
        n = mp.face_normal(f, normalize=norm)
        ctx.eq("normal-shape", n.shape, (D,))
        x = vv[:, list(idx)]
        if norm:
            ctx.close("unit", np.linalg.norm(n), 1.0, 1e-13)
        # orthogonal to the face
        ctx.close("orthogonal", n @ (x - x[:, :1]), np.zeros(x.shape[1]), 1e-12)
        # pointing outward
        c = vv.mean(axis=1)
        ctx.true("outward", n @ (x.mean(axis=1) - c) > 0.1 * np.linalg.norm(n))
        # affine
        a = ref.generic_points(face_dims(shape), 4)
        y = f.map_to_volume(a)
        ctx.eq("map-shape", y.shape, (D, 4))
        ctx.true("on-face", np.abs(n @ (y - x[:, :1])).max() < 1e-12
                 and ref.inside(dims, y).all())
        if D > 1:
            mid = f.map_to_volume((a[:, :1] + a[:, 1:2]) / 2)
            ctx.close("affine", mid, (y[:, :1] + y[:, 1:2]) / 2, 1e-13)
        if not norm and D > 1:
            # unnormalized: twice-subdivided parallelepiped measure of the vertex
            # differences
            e = x[:, 1:D] - x[:, :1]
            ctx.close("measure", np.linalg.norm(n),
                      math.sqrt(np.linalg.det(e.T @ e)), 1e-11)

    def obs_cover(self, ctx, shape):
        """Every vertex of the shape is on the right number of faces; the vertex table
        itself is the documented one."""
        sh, dims = mk(shape)
        faces = mp.faces_for_shape(sh)
        vv = mp.unit_vertices_for_shape(sh)
        ctx.eq("nvertices", vv.shape, (sh.dim, sh.nvertices))
        for v in range(sh.nvertices):
            k = sum(v in f.volume_vertex_indices for f in faces)
            ctx.eq("incidence", k, sh.dim)
        # same hyperplane set as the shape's own boundary
        got = sorted(tuple(sorted(f.volume_vertex_indices)) for f in faces)
        want = []
        if shape[0] == "s":
            want = [tuple(c) for c in itertools.combinations(range(sh.dim + 1), sh.dim)]
        else:
            for a in range(sh.dim):
                for s in (-1, 1):
                    want.append(tuple(np.nonzero(vv[a] == s)[0].tolist()))
        ctx.eq("faces", got, sorted(want))

    def obs_pairs(self, ctx, shape, a, b):
        sh, _ = mk(shape)
        fs = mp.faces_for_shape(sh)
        if a == b:
            ctx.eq("equal", fs[a], fs[a])
            return
        ctx.true("distinct", set(fs[a].volume_vertex_indices)
                 != set(fs[b].volume_vertex_indices))
        # normals of different faces differ
        na, nb = mp.face_normal(fs[a]), mp.face_normal(fs[b])
        ctx.true("normals", np.linalg.norm(na - nb) > 0.1)
        # dihedral relation: opposite vertices of a simplex face
        if shape[0] == "s" and sh.dim > 1:
            shared = set(fs[a].volume_vertex_indices) & set(fs[b].volume_vertex_indices)
            ctx.eq("shared", len(shared), sh.dim - 1)

    def _surface(self, sh, dims, shape, n):
        out = []
        for f in mp.faces_for_shape(sh):
            fd = face_dims(shape)
            xr, wr = ref.tp_rule(fd, [n] * len(fd))
            x = f.map_to_volume(xr)
            nrm = mp.face_normal(f)
            vv = mp.unit_vertices_for_shape(sh)[:, list(f.volume_vertex_indices)]
            if sh.dim == 1:
                jac = 1.0
            else:
                e = (vv[:, 1:sh.dim] - vv[:, :1]) / 2
                jac = math.sqrt(abs(np.linalg.det(e.T @ e)))
            out.append((x, wr * jac, nrm))
        return out

    def _gauss(self, ctx, shape, comp=0, **e):
        e = tuple(e.values())
        sh, dims = mk(shape)
        n = sum(e) + 1

        def mono(x, e):
            r = np.ones(x.shape[1])
            for k, p in enumerate(e):
                r = r * ((1.1 + x[k]) / 2) ** p
            return r
        xv, wv = ref.tp_rule(dims, [n] * len(dims))
        if e[comp]:
            de = list(e)
            de[comp] -= 1
            div = 0.5 * e[comp] * mono(xv, de)
        else:
            div = np.zeros(xv.shape[1])
        lhs = wv @ div
        rhs = sum((w * mono(x, e)).sum() * nrm[comp]
                  for x, w, nrm in self._surface(sh, dims, shape, n))
        ctx.close("divergence", rhs, lhs, 1e-11)

    obs_gauss1 = obs_gauss2 = obs_gauss3 = _gauss

    def obs_asshape(self, ctx, shape, face, n):
        """A face is a shape: everything works on it as on the shape of its kind."""
        sh, _ = mk(shape)
        f = mp.faces_for_shape(sh)[face]
        if sh.dim == 1:
            s, fam = mp.Simplex(0), mp.Simplex
        else:
            s, fam = mk(shape[0] + str(sh.dim - 1))[0], (
                mp.Simplex if shape[0] == "s" or sh.dim == 2 else mp.Hypercube)
        ctx.true("kind", isinstance(f, fam), type(f).__name__)
        ctx.eq("counts", (f.dim, f.nvertices), (s.dim, s.nvertices))
        ctx.close("vertices", mp.unit_vertices_for_shape(f), mp.unit_vertices_for_shape(s),
                  0)
        fs, ss = mp.space_for_shape(f, n), mp.space_for_shape(s, n)
        ctx.eq("space", (type(fs), fs.space_dim, fs.spatial_dim),
               (type(ss), ss.space_dim, ss.spatial_dim))
        ctx.eq("tuples", list(mp.node_tuples_for_space(fs)),
               list(mp.node_tuples_for_space(ss)))
        q, r = mp.quadrature_for_space(fs, f), mp.quadrature_for_space(ss, s)
        ctx.close("quadrature", np.vstack([q.nodes, [q.weights]]),
                  np.vstack([r.nodes, [r.weights]]), 0)
        ctx.eq("exact_to", q.exact_to, r.exact_to)
        for fn in (mp.equispaced_nodes_for_space, mp.edge_clustered_nodes_for_space):
            ctx.close(fn.__name__, fn(fs, f), fn(ss, s), 0)
        x = mp.random_nodes_for_shape(f, 7, np.random.default_rng(n))
        ctx.close("random", x, mp.random_nodes_for_shape(s, 7, np.random.default_rng(n)), 0)
        for fn in (mp.basis_for_space, mp.orthonormal_basis_for_space,
                   mp.monomial_basis_for_space):
            a, b = fn(fs, f), fn(ss, s)
            ctx.eq("ids", a.mode_ids, b.mode_ids)
            ctx.close(fn.__name__, np.array([g(x) for g in a.functions]),
                      np.array([g(x) for g in b.functions]), 0)
        if s.dim and n:
            t = mp.node_tuples_for_space(ss)
            ctx.eq("submesh", list(mp.submesh_for_shape(f, t)),
                   list(mp.submesh_for_shape(s, t)))
            y = mp.equispaced_nodes_for_space(ss, s)
            ctx.close("lebesgue", mt.estimate_lebesgue_constant(n, y, f),
                      mt.estimate_lebesgue_constant(n, y, s), 0)

    def obs_edges(self, ctx, shape, face, sub):
        sh, _ = mk(shape)
        f = mp.faces_for_shape(sh)[face]
        subs = mp.faces_for_shape(f)
        ctx.eq("count", len(subs), NF[shape[0] + str(sh.dim - 1)])
        g = subs[sub]
        ctx.eq("index", (g.face_index, g.dim), (sub, sh.dim - 2))
        ctx.true("volume", g.volume_shape == f)
        V = mp.unit_vertices_for_shape(sh)
        want = V[:, [f.volume_vertex_indices[i] for i in g.volume_vertex_indices]]
        xg = mp.unit_vertices_for_shape(g)
        ctx.close("vertices", f.map_to_volume(g.map_to_volume(xg)), want, 1e-14)
        ctx.eq("facets", want.shape[1], 1 if sh.dim == 2 else 2)

    def obs_closed(self, ctx, shape):
        sh, _ = mk(shape)
        ends = {}
        for f in mp.faces_for_shape(sh):
            for g in mp.faces_for_shape(f):
                v = tuple(f.volume_vertex_indices[i] for i in g.volume_vertex_indices)
                if sh.dim == 2:
                    v, s = v, g.face_index
                else:
                    s, v = int(v[0] > v[1]), tuple(sorted(v))
                ends.setdefault(v, []).append(s)
        n = {"s2": 3, "c2": 4, "s3": 6, "c3": 12}[shape]
        ctx.eq("count", len(ends), n)
        # every edge (2-D: vertex) is met by two faces, with opposite orientation
        ctx.eq("opposite", {tuple(sorted(s)) for s in ends.values()}, {(0, 1)})

    def obs_stokes(self, ctx, shape, face, comp, **e):
        e = tuple(e.values())
        sh, _ = mk(shape)
        faces = mp.faces_for_shape(sh)
        n = sum(e) + 1

        def mono(x, e):
            r = np.ones(x.shape[1:])
            for k, p in enumerate(e):
                r = r * ((1.1 + x[k]) / 2) ** p
            return r

        def d(x, k):
            if not e[k]:
                return np.zeros(x.shape[1:])
            de = list(e)
            de[k] -= 1
            return 0.5 * e[k] * mono(x, de)
        t, w = ref.tp_rule([1], [n])
        f = faces[face]
        circ = 0.0
        for g in mp.faces_for_shape(f):
            x = f.map_to_volume(g.map_to_volume(t))
            ab = f.map_to_volume(g.map_to_volume(np.array([[-1.0, 1.0]])))
            circ += (w * mono(x, e)).sum() * (ab[comp, 1] - ab[comp, 0]) / 2
        # curl of F e_comp
        x, w, nrm = self._surface(sh, None, shape, n)[face]
        i, j = (comp + 1) % 3, (comp + 2) % 3
        flux = (w * (d(x, j) * nrm[i] - d(x, i) * nrm[j])).sum()
        # one sign for all faces of a shape
        ctx.close("stokes", circ, flux, 1e-11)

    def obs_functions(self, ctx, shape, face, n):
        """The trace of a member of the volume space is in the face space."""
        sh, dims = mk(shape)
        f = mp.faces_for_shape(sh)[face]
        sp = mp.space_for_shape(sh, n)
        fsp = mp.space_for_shape(f, n)
        if sh.dim == 1:
            return
        fn = mp.edge_clustered_nodes_for_space(fsp, f)
        a = ref.generic_points(face_dims(shape), 6)
        ff = [(d, n) for d in ([sh.dim - 1] if shape[0] == "s" else face_dims(shape))]
        ctx.eq("face-space", fsp.space_dim, ref.space_dim(ff))
        V = np.array([g(f.map_to_volume(fn)) for g in
                      mp.basis_for_space(sp, sh).functions])
        W = np.array([g(f.map_to_volume(a)) for g in
                      mp.basis_for_space(sp, sh).functions])
        L = np.linalg.solve(ref.tp_basis(ff, fn), ref.tp_basis(ff, a))
        ctx.close("trace", V @ L, W, 1e-9 * (1 + np.abs(W).max()))
        # the traces of the node sets agree with the face nodes
        vol = mp.edge_clustered_nodes_for_space(sp, sh)
        if n and shape != "s3":
            img = f.map_to_volume(fn)
            d = np.abs(vol[:, :, None] - img[:, None, :]).max(axis=0).min(axis=0)
            ctx.close("node-trace", d, np.zeros(len(d)), 1e-10)

    def obs_points(self, ctx, shape, face, npts, mem):
        sh, _ = mk(shape)
        f = mp.faces_for_shape(sh)[face]
        p = ref.generic_points(face_dims(shape), 5)[:, :npts].copy()
        if mem == "F":
            p = np.asfortranarray(p)
        if mem == "ro":
            p.flags.writeable = False
        p0 = p.copy()
        y = f.map_to_volume(p)
        ctx.eq("shape", y.shape, (sh.dim, npts))
        for i in range(npts):
            ctx.close("pointwise", y[:, i:i + 1], f.map_to_volume(p[:, i:i + 1]), 1e-14)
        ctx.close("input-unchanged", p, p0, 0)
        y2 = f.map_to_volume(p)
        y2 += 17
        ctx.close("pure", f.map_to_volume(p), y, 0)

    def obs_nofaces(self, ctx, what):
        if what == 0:
            sh = mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))
            ctx.raises("prism", NotImplementedError, lambda: mp.faces_for_shape(sh))
            ctx.eq("nfaces", sh.nfaces, 5)
        elif what == 1:
            sh = mp.TensorProductShape((mp.Simplex(1), mp.Simplex(2)))
            ctx.eq("nfaces", (sh.nfaces, sh.nvertices), (5, 6))
        else:
            for d in range(2, 6):
                ctx.eq("nfaces", mp.Hypercube(d).nfaces, 2 * d)
                ctx.eq("nvertices", mp.Hypercube(d).nvertices, 2 ** d)
