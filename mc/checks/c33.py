"""C33: process-wide settings neither matter to the answers nor are changed by calls."""
import contextlib
import os
import pickle
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import modepy as mp
from mc import apicalls as api
from mc import ref, spaces
from mc.engine import GridModel

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.path.dirname(os.path.dirname(os.path.abspath(mp.__file__)))

# interpreter flags, environment, working directory
INTERP = {
    "-O": (["-O"], {}, ROOT),
    "-OO": (["-OO"], {}, ROOT),
    "-I": (["-I"], {}, ROOT),
    "-bb": (["-bb"], {}, ROOT),
    "dev": (["-X", "dev"], {}, ROOT),
    "warnings": (["-W", "error::RuntimeWarning"], {}, ROOT),
    "hash1": ([], {"PYTHONHASHSEED": "1"}, ROOT),
    "hash2": ([], {"PYTHONHASHSEED": "2"}, ROOT),
    "hash777": ([], {"PYTHONHASHSEED": "777"}, ROOT),
    "C-locale": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}, ROOT),
    "root-dir": ([], {}, "/"),
    "no-home": ([], {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, "/"),
}
# optional packages that may not be installed
MISSING = ["", "scipy", "matplotlib", "scipy+matplotlib"]
RUNNER = r"""
import sys
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import pickle, warnings
for name in sys.argv[3].split("+") if len(sys.argv) > 3 else []:
    if name:
        sys.modules[name] = None
warnings.filterwarnings("ignore", category=DeprecationWarning)
out = {}
from mc import apicalls as api
if len(sys.argv) > 3:
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    from mc.checks import c33
    for n in range(int(sys.argv[4])):
        for what in c33.FAMILIES:
            for dim in (0, 1, 2, 3):
                if dim > 1 and n >= int(sys.argv[5]):
                    continue
                out[what, n, dim] = []
                try:
                    fns = c33.family(what, n, dim)
                except Exception as e:
                    out[what, n, dim].append((None, ("raised", repr(e))))
                    continue
                for f in fns:
                    try:
                        r = api.norm(f())
                    except BaseException as e:
                        r = ("raised", type(e).__name__, str(e)[:200])
                    out[what, n, dim].append((getattr(f, "needs", None), r))
for tab, calls in (("CALLS", api.CALLS), ("ALT", api.ALT)):
    for n, f in calls.items():
        try:
            out[tab, n] = api.norm(f())
        except BaseException as e:
            out[tab, n] = ("raised", repr(e)[:200])
sys.stdout.buffer.write(pickle.dumps(out))
"""

# several settings at once (quick), and each alone
QUICK = ["raise+buffer-size", "call+random-state+no-gc", "ignore+print-options",
         "warnings-are-errors+warn", "thread"]
SETTINGS = ["raise", "call", "ignore", "warn", "warnings-are-errors", "print-options",
            "random-state", "buffer-size", "no-gc", "thread"]
# numpy reports underflow to zero, which is harmless and not promised to be absent
FP = {"divide", "over", "invalid"}


class Seen(Exception):
    pass


def _fperr(kind, flag):
    raise Seen(kind)


@contextlib.contextmanager
def setting(how):
    names = how.split("+")
    with contextlib.ExitStack() as st:
        for name in names:
            if name in ("raise", "ignore", "warn", "call"):
                st.enter_context(np.errstate(call=_fperr, **dict.fromkeys(FP, name)))
        if "warn" in names or "warnings-are-errors" in names:
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter("error", RuntimeWarning)
            warnings.simplefilter("error", np.exceptions.ComplexWarning)
        if "print-options" in names:
            st.enter_context(np.printoptions(precision=1, threshold=2, suppress=True))
        if "random-state" in names:
            import random
            random.seed(5)
            np.random.seed(5)
        if "buffer-size" in names:
            old = np.setbufsize(16)
            st.callback(np.setbufsize, old)
        if "no-gc" in names:
            import gc
            gc.disable()
            st.callback(gc.enable)
        yield


def in_thread(fn):
    import threading
    out = []

    def run():
        try:
            out.append((True, fn()))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if not out[0][0]:
        raise out[0][1]
    return out[0][1]


def snapshot():
    """Everything process-wide a library has no business with."""
    import decimal
    import gc
    import locale
    import random
    import signal
    import threading
    s = np.random.get_state()
    return {"numpy error handling": np.geterr(), "numpy error call": np.geterrcall(),
            "numpy buffer size": np.getbufsize(),
            "warning filters": [repr(f) for f in warnings.filters],
            "showwarning": warnings.showwarning,
            "print options": repr(np.get_printoptions()),
            "numpy random state": (s[0], s[1].tobytes(), s[2:]),
            "random state": random.getstate(), "directory": os.getcwd(),
            "environment": dict(os.environ), "sys.path": list(sys.path),
            "recursion limit": sys.getrecursionlimit(), "gc": gc.isenabled(),
            "threads": threading.active_count(), "locale": locale.setlocale(locale.LC_ALL),
            "decimal": repr(decimal.getcontext()),
            "streams": (sys.stdout, sys.stderr, sys.stdin),
            "hooks": (sys.excepthook, sys.gettrace(), sys.getprofile()),
            "signals": [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM,
                                                      signal.SIGFPE)]}


def family(what, n, dim):
    """Calls over every order, as a list of functions without arguments."""
    from modepy.quadrature import kronrod as kr
    from modepy.quadrature import transplanted as tp
    fns = []

    def add(f, needs=None):
        f.needs = needs
        fns.append(f)
    if what == "nodes" and dim:
        sh = mp.Simplex(dim)
        add(lambda: mp.warp_and_blend_nodes(dim, n))
        add(lambda: mp.equidistant_nodes(dim, n))
        add(lambda: mp.edge_clustered_nodes_for_space(mp.PN(dim, n), sh))
        add(lambda: mp.edge_clustered_nodes_for_space(
            mp.QN(dim, min(n, 6)), mp.Hypercube(dim)))
    elif what == "rules" and dim:
        for c in (mp.XiaoGimbutasSimplexQuadrature, mp.VioreanuRokhlinSimplexQuadrature,
                  mp.GrundmannMoellerSimplexQuadrature, mp.WitherdenVincentQuadrature,
                  mp.JaskowiecSukumarQuadrature):
            add(lambda c=c: c(n, dim))
        add(lambda: mp.quadrature_for_space(mp.PN(dim, n), mp.Simplex(dim)))
    elif what == "rules1d" and dim == 1:
        for a, b in [(0, 0), (-.5, -.5), (.5, .5), (1, 0), (-.5, .5), (2.5, -.9)]:
            for be in ("builtin", "scipy"):
                add(lambda a=a, b=b, be=be: mp.JacobiGaussQuadrature(
                    a, b, n, backend=be, force_dim_axis=True),
                    needs="scipy" if be == "scipy" else None)
            add(lambda a=a, b=b: mp.JacobiGaussLobattoQuadrature(
                a, b, n, force_dim_axis=True))
        add(lambda: mp.ClenshawCurtisQuadrature(n, force_dim_axis=True))
        for k in (1, 2):
            add(lambda k=k: mp.FejerQuadrature(n, kind=k, force_dim_axis=True))
    elif what == "matrices" and dim and n <= (0, 30, 8, 5)[dim]:
        sp, sh = mp.PN(dim, n), mp.Simplex(dim)
        b = mp.orthonormal_basis_for_space(sp, sh)
        x = mp.edge_clustered_nodes_for_space(sp, sh)
        y = mp.equispaced_nodes_for_space(sp, sh)
        add(lambda: mp.vandermonde(b.functions, x))
        add(lambda: mp.resampling_matrix(b.functions, y, x))
        add(lambda: mp.diff_matrices(b, x))
        add(lambda: mp.mass_matrix(b, x))
        sub = mp.basis_for_space(mp.PN(dim, n // 2), sh)
        add(lambda: mp.resampling_matrix(sub.functions, y, x, least_squares_ok=True))
        add(lambda: mp.inverse_mass_matrix(b, x))
        q = mp.quadrature_for_space(mp.PN(dim, 2 * n), sh)
        add(lambda: mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, x))
        add(lambda: mp.nodal_quadrature_bilinear_form_matrix(
            q, sub.functions, b.functions, sub.functions, b.functions, x,
            mp.edge_clustered_nodes_for_space(mp.PN(dim, n // 2), sh)))
        if dim > 1:
            face = mp.faces_for_shape(sh)[-1]
            fsp = mp.PN(dim - 1, n)
            fb = mp.basis_for_space(fsp, face)
            fq = mp.quadrature_for_space(mp.PN(dim - 1, 2 * n), face)
            fx = mp.edge_clustered_nodes_for_space(fsp, face)
            add(lambda: mp.nodal_mass_matrix_for_face(
                face, fq, fb.functions, b.functions, x, fx))
            add(lambda: mp.nodal_quad_mass_matrix_for_face(face, fq, b.functions, x))
        from modepy import modal_decay as md
        v = np.array([np.exp(x[0]), 1 / (2 + x[-1])])
        if n > 1:
            add(lambda: md.simplex_interp_error_coefficient_estimator_matrix(x, n, 1))
            add(lambda: md.fit_modal_decay(v @ np.linalg.inv(
                mp.vandermonde(b.functions, x)).T, dim, n))
            add(lambda: md.estimate_relative_expansion_residual(
                v @ np.linalg.inv(mp.vandermonde(b.functions, x)).T, dim, n))
        from modepy import tools as mt
        add(lambda: mt.estimate_lebesgue_constant(n, x, sh))
    elif what == "kronrod" and dim == 1:
        add(lambda: kr.make_kronrod_quadrature(n))
        for p in [(0, 1.0), (0.0, np.inf), (-np.inf, np.inf), (-np.inf, 1.0)]:
            add(lambda p=p: kr.quadgk(lambda t: 1 / (1 + t * t), *p,
                                        order=n, reltol=1e-8))
    elif what == "jacobi" and dim == 1:
        x = np.array([-1, -.3, 0, .7, 1.0])
        for a, b in [(0, 0), (-.5, -.5), (-.3, -.7), (1, 2.5), (20., 3)]:
            add(lambda a=a, b=b: mp.jacobi(a, b, n, x))
            add(lambda a=a, b=b: mp.grad_jacobi(a, b, n, x))
            add(lambda a=a, b=b: mp.scaled_jacobi(a, b, n, x))
    elif what == "maps" and dim == 1:
        x = np.linspace(-1, 1, n + 2)
        add(lambda: tp.map_sausage(x, 1 + 2 * n))
        add(lambda: tp.map_kosloff_tal_ezer(x, rho=1.1 + n / 3))
        add(lambda: tp.map_strip(x[1:-1], rho=1.2 + n / 3), needs="scipy")
        for m in (tp.map_identity, tp.map_kosloff_tal_ezer, tp.map_strip):
            add(lambda m=m: mp.transplanted_legendre_gauss_quadrature(
                n, m, force_dim_axis=True), needs="scipy" if m is tp.map_strip else None)
    elif what == "ortho" and dim and 0 < n <= (0, 14, 7, 5)[dim]:
        from modepy.quadrature.construction import orthogonalize_basis
        sp, sh = mp.PN(dim, n), mp.Simplex(dim)
        q = mp.quadrature_for_space(mp.PN(dim, 2 * n), sh)
        for b in (mp.monomial_basis_for_space(sp, sh), mp.basis_for_space(sp, sh)):
            for fs in (b.functions, b.functions[::-1]):
                add(lambda fs=fs: [f(q.nodes) for f in orthogonalize_basis(q, fs)])
    return fns


NEED_SCIPY = {"strip", "strip2"}
FAMILIES = ["nodes", "rules", "rules1d", "matrices", "kronrod", "jacobi", "maps", "ortho"]


class MODEL(GridModel):
    id = "C33"
    bounds = ("all %d public calls of the table with two argument sets x %d process-wide "
              "settings (floating-point error handling, warnings as errors, print "
              "options, random state, ...), cold caches; x %d ways to start the "
              "interpreter (-O, -OO, -I, hash seeds, locale, working directory, ...); "
              "functions and gradients of all bases of 8 shapes at vertices, edges and "
              "next to them, nodes, rules and matrices of every order x settings"
              % (len(api.CALLS), len(SETTINGS), len(INTERP)))
    assumptions = ["underflow to zero is not reported", "print options may change reprs"]

    def grids(self, tier):
        q = tier == "quick"
        self.tier = tier
        yield "call", {"alt": [0, 1], "name": list(api.CALLS), "how": QUICK if q else QUICK + SETTINGS}
        yield "interp", {"alt": [0, 1], "name": list(api.CALLS), "how": list(INTERP)}
        self.factors = spaces.factor_lists(
            {1: 6, 2: 5, 3: 4} if q else {1: 14, 2: 10, 3: 7},
            {2: [0, 2], 3: [1]} if q else {2: [0, 1, 3], 3: [0, 2]}, zero=False, max_size=200)
        yield "missing", {"what": FAMILIES, "n": range(self.norders(tier)[0]),
                          "dim": [0, 1, 2, 3], "package": MISSING[1:]}
        yield "missingcall", {"alt": [0, 1], "name": list(api.CALLS), "package": MISSING[1:]}
        yield "basis", {"f": list(range(len(self.factors))),
                        "kind": ["onb", "default", "monomial"],
                        "points": ["vertices", "edges", "near1e-13", "near1e-11",
                                   "near1e-8", "sidenear1e-11", "generic"],
                        "how": ["raise"] if q else ["raise", "warn"]}
        yield "family", {"what": FAMILIES,
                         "n": range(0, 13 if q else 31), "dim": [0, 1, 2, 3],
                         "how": ["raise"] if q else ["raise", "warn"]}

    def norders(self, tier):
        # on lines, and on other shapes
        return (26, 9) if tier == "quick" else (60, 16)

    def valid(self, name, cfg):
        if name == "missing" and cfg["dim"] > 1:
            return cfg["n"] < self.norders(self.tier)[1]
        if name == "call" and "print-options" in cfg["how"]:
            return cfg["name"] not in ("symbolic", "shapes")
        return True

    def prepare(self, tier):
        api.preload()
        np.random.seed(0)
        self.fresh = {(t, n): api.isolated(lambda f=f: api.norm(f()))
                      for t, calls in enumerate((api.CALLS, api.ALT))
                      for n, f in calls.items()}
        self.other = {}

        def start(how):
            flags, env, cwd = INTERP.get(how, ([], {}, ROOT))
            args = [] if how in INTERP else [how[8:], *map(str, self.norders(tier))]
            p = subprocess.run([sys.executable, *flags, "-c", RUNNER, ROOT, REPO, *args],
                               env={**os.environ, **env}, cwd=cwd, capture_output=True)
            try:
                return pickle.loads(p.stdout)
            except Exception:
                return p.stderr.decode(errors="replace")[-600:]
        with ThreadPoolExecutor(8) as ex:
            hows = [*("without " + m for m in MISSING), *INTERP]
            for how, out in zip(hows, ex.map(start, hows)):
                self.other[how] = out

    def obs_call(self, ctx, alt, name, how):
        f = (api.ALT if alt else api.CALLS)[name]

        def run():
            with setting(how):
                before = snapshot()
                if how == "thread":
                    out = in_thread(f)
                else:
                    out = f()
                after = snapshot()
            diff = [k for k in before if before[k] != after[k]]
            return api.norm(out), diff
        try:
            got, diff = api.isolated(run)
        except RuntimeError as e:
            if name == "quadgk-inf" and "underflow" in str(e):
                return
            ctx.fail("raises", f"{name} under {how!r}: {e}")
            return
        want = self.fresh[alt, name]
        ctx.true("answer", api.same(got, want),
                 f"{name} under {how!r} answers {str(got)[:300]}, usually "
                 f"{str(want)[:300]}")
        ctx.eq("changed", diff, [])
        ctx.note(name)

    def obs_interp(self, ctx, alt, name, how):
        out = self.other[how]
        if not isinstance(out, dict):
            ctx.fail("start", f"the interpreter started as {how!r} failed: {out}")
            return
        got, want = out["ALT" if alt else "CALLS", name], self.fresh[alt, name]
        ctx.true("answer", api.same(got, want),
                 f"{name} in an interpreter started as {how!r} answers {str(got)[:300]}, "
                 f"usually {str(want)[:300]}")
        ctx.note(how)

    def without(self, ctx, package):
        got, want = self.other["without " + package], self.other["without "]
        for out in (got, want):
            if not isinstance(out, dict):
                ctx.fail("start", f"using modepy without {package} failed: {out}")
                return None, None
        return got, want

    def judge(self, ctx, label, package, needs, got, want):
        """*got* is the answer without *package*, *want* the one with it."""
        if needs and needs in package and isinstance(got, tuple) and got[0] == "raised":
            ctx.true(label, "scipy" in " ".join(got[1:]),
                     f"without {package}, a call that needs it raises {got[1:]}, which "
                     "does not name the package")
            ctx.note("unavailable")
            return
        ctx.true(label, api.same(got, want, 1e-8),
                 f"without {package}: {str(got)[:300]}, with it {str(want)[:300]}")

    def obs_missing(self, ctx, what, n, dim, package):
        got, want = self.without(ctx, package)
        if got is None:
            return
        key = (what, n, dim)
        ctx.eq("calls", len(got[key]), len(want[key]))
        for i, ((needs, g), (_, w)) in enumerate(zip(got[key], want[key])):
            self.judge(ctx, (what, i), package, needs, g, w)

    def obs_missingcall(self, ctx, alt, name, package):
        got, want = self.without(ctx, package)
        if got is None:
            return
        if name == "strip-bad" and package != "matplotlib":
            return      # which of the two errors comes first is not promised
        key = ("ALT" if alt else "CALLS", name)
        self.judge(ctx, name, package, "scipy" if name in NEED_SCIPY else None,
                   got[key], want[key])

    def compare(self, ctx, label, how, fn):
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = api.norm(fn())
        diff = []
        try:
            with setting(how):
                before = snapshot()
                out = fn()
                after = snapshot()
            if before != after:
                diff = [k for k in before if before[k] != after[k]]
            got = api.norm(out)
        except (FloatingPointError, RuntimeWarning, np.exceptions.ComplexWarning) as e:
            ctx.fail(label, f"under {how!r}: {e!r}")
            return
        ctx.eq((label, "changed"), diff, [])
        ctx.true(label, api.same(got, want),
                 f"under {how!r}: {str(got)[:300]}, usually {str(want)[:300]}")

    def obs_basis(self, ctx, f, kind, points, how):
        fac = self.factors[f]
        b = spaces.basis_of(kind, fac)
        x = spaces.points([d for d, _ in fac], points)
        self.compare(ctx, "functions", how, lambda: [g(x) for g in b.functions])
        self.compare(ctx, "gradients", how, lambda: [g(x) for g in b.gradients])
        self.compare(ctx, "scalars", how,
                     lambda: [(b.functions[-1](y), b.gradients[-1](y))
                              for y in x.T[:40]])

    def obs_family(self, ctx, what, n, dim, how):
        def unavailable(f):
            def g():
                try:
                    return f()
                except (FloatingPointError, RuntimeWarning, OverflowError,
                        ZeroDivisionError):
                    raise
                except Exception as e:
                    return type(e).__name__
            return g
        for i, g in enumerate(map(unavailable, family(what, n, dim))):
            try:
                self.compare(ctx, (what, i), how, g)
            except (OverflowError, ZeroDivisionError) as e:
                ctx.note(type(e).__name__)
