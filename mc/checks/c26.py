"""C26: random_nodes_for_shape under every answer of the random number generator."""
import numpy as np

import modepy as mp
from mc import ref
from mc.engine import Model
from mc.shapes import shape_of

EPS = 2.0**-53
ANSWERS = [0.0, 0.3, 0.5, 0.75, 1 - EPS]
SHAPES = {"point": ((0,), "simplex"), "line": ((1,), "simplex"),
          "tri": ((2,), "simplex"), "tet": ((3,), "simplex"), "4d": ((4,), "simplex"),
          "square": ((1, 1), "cube"), "cube": ((1, 1, 1), "cube"),
          "prism": ((2, 1), "tp"), "prism2": ((1, 2), "tp"), "tet-line": ((3, 1), "tp"),
          "nested": ((1, 1, 2), "nested"), "point-line": ((0, 1), "tp")}


class Scripted(np.random.Generator):
    """Answers the scripted values in [0, 1) first, the pad value afterwards."""

    def __new__(cls, script):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, script):
        super().__init__(np.random.PCG64(0))
        self.script = list(script)
        self.used = 0
        self.candidates = []

    def _take(self, size):
        n = int(np.prod(size)) if size is not None else 1
        out = np.zeros(n)
        k = min(n, max(len(self.script) - self.used, 0))
        out[:k] = self.script[self.used:self.used + k]
        self.used += n
        return out.reshape(size) if size is not None else float(out[0])

    def random(self, size=None, *args, **kwargs):
        return self._take(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        v = self._take(size)
        r = low + (high - low) * v
        if np.ndim(r) == 2:
            self.candidates.append(np.array(r))
        return r


class MODEL(Model):
    id = "C26"
    bounds = ("%d shapes x 0..3 nodes x every sequence of RNG answers over %s up to the "
              "length below (then the corner), i.e. every acceptance/rejection history "
              "of that length; real generators with every seed 0..49 (thorough 0..199), "
              "call histories of length 1..3" % (len(SHAPES), ANSWERS))
    assumptions = ["the generator passed in is the only source of randomness (checked)"]

    def init(self, tier):
        self.q = tier == "quick"
        return [("script", s, n, ()) for s in SHAPES for n in range(4)] + \
            [("seed", s, k) for s in SHAPES for k in range(50 if self.q else 200)] + \
            [("none", s) for s in SHAPES] + [("bad",)]

    def events(self, s, tier):
        if s[0] != "script":
            return []
        dims = SHAPES[s[1]][0]
        d = sum(dims)
        if d == 0 or s[2] == 0:
            return []
        deep = 4 if self.q else 6
        if len(s[3]) >= deep:
            return []
        return list(range(len(ANSWERS)))

    def step(self, s, ev):
        return (*s[:3], (*s[3], ev))

    def describe(self, s):
        if s[0] == "script":
            return {"shape": s[1], "nnodes": s[2], "answers": [ANSWERS[i] for i in s[3]]}
        return {"grid": s[0], "args": s[1:]}

    def observe(self, s, ctx):
        getattr(self, "obs_" + s[0])(ctx, *s[1:])

    def _inside(self, ctx, lab, dims, x, n):
        ok = ctx.eq(lab + "shape", np.shape(x), (sum(dims), n))
        ctx.eq(lab + "dtype", np.asarray(x).dtype, np.dtype(np.float64))
        if ok and n and sum(dims):
            ctx.true(lab + "finite", np.isfinite(x).all())
            k = 0
            for d in dims:
                y = x[k:k + d]
                k += d
                if d:
                    ctx.true(lab + "inside", (y >= -1 - 1e-14).all()
                             and (y.sum(axis=0) <= 2 - d + 1e-14).all(),
                             f"{x!r} is not in the shape")

    def obs_script(self, ctx, s, n, script):
        dims, style = SHAPES[s]
        vals = [ANSWERS[i] for i in script]
        # the answers reach every coordinate: shift the script so that rejections occur
        for rot in range(2):
            rng = Scripted(vals if rot == 0 else [ANSWERS[-1]] * (sum(dims) * n) + vals)
            g0 = np.random.get_state()
            x = mp.random_nodes_for_shape(shape_of(dims, style), n, rng=rng)
            g1 = np.random.get_state()
            ctx.true("global-state", g0[2] == g1[2] and (g0[1] == g1[1]).all())
            self._inside(ctx, "", dims, x, n)
            if len(dims) == 1 and n and dims[0] and rng.candidates and \
                    all(len(c) == dims[0] for c in rng.candidates):
                cand = np.concatenate(rng.candidates, axis=1)
                ok = cand[:, cand.sum(axis=0) < 2 - dims[0] - 1e-12]
                hit = [any((x[:, k] == ok[:, j]).all() for j in range(ok.shape[1]))
                       or abs(x[:, k].sum() - (2 - dims[0])) < 1e-9 for k in range(n)]
                ctx.true("drawn", all(hit), f"{x!r} does not consist of drawn points")
                # exactly the accepted candidates, none lost, duplicated or reordered
                if ok.shape[1] == n and not (np.abs(
                        cand.sum(axis=0) - (2 - dims[0])) < 1e-9).any():
                    ctx.close("accepted", np.sort(x, axis=1), np.sort(ok, axis=1), 0)
        ctx.note(repr(x.tolist()))

    def obs_seed(self, ctx, s, seed):
        dims, style = SHAPES[s]
        shape = shape_of(dims, style)
        for n in (0, 1, 2, 7, 40):
            a = np.random.default_rng(seed)
            b = np.random.default_rng(seed)
            xa = [mp.random_nodes_for_shape(shape, n, rng=a) for _ in range(3)]
            xb = [mp.random_nodes_for_shape(shape, n, rng=b) for _ in range(3)]
            for k in range(3):
                self._inside(ctx, "", dims, xa[k], n)
                ctx.close("reproducible", xa[k], xb[k], 0)
            if n and sum(dims):
                ctx.true("advances", (xa[0] != xa[1]).any() and (xa[1] != xa[2]).any())
            if n > 1 and sum(dims):
                ctx.true("distinct", len({tuple(c) for c in xa[0].T}) == n)
            if n and len(dims) > 1 and dims[0] == dims[1] == 1:
                ctx.true("independent", (xa[0][0] != xa[0][1]).any())
        # spread: 40 points do not sit in a corner (deterministic per seed)
        if sum(dims):
            x = np.concatenate([mp.random_nodes_for_shape(
                shape, 40, rng=np.random.default_rng((seed, j))) for j in range(5)],
                axis=1)
            k = 0
            for d in dims:
                if d:
                    c = -1 + 2 / (d + 1)
                    sd = np.sqrt(4 * d / ((d + 1)**2 * (d + 2)) / 200)
                    ctx.close("mean", x[k:k + d].mean(axis=1), np.full(d, c), 7 * sd)
                k += d

    def obs_none(self, ctx, s):
        dims, style = SHAPES[s]
        shape = shape_of(dims, style)
        x = mp.random_nodes_for_shape(shape, 12)
        y = mp.random_nodes_for_shape(shape, 12)
        self._inside(ctx, "", dims, x, 12)
        if sum(dims):
            ctx.true("fresh", (x != y).any())

    def obs_bad(self, ctx):
        ctx.raises("object", NotImplementedError,
                   lambda: mp.random_nodes_for_shape(object(), 3), "object()")
