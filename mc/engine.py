"""A small explicit-state model checker for the configuration / history spaces of
modepy.

A *model* (subclass of :class:`Model`) supplies

* ``init(tier)``          -- the initial states (hashable, JSON-able tuples),
* ``events(state, tier)`` -- every event enabled in a state (the alphabet),
* ``step(state, event)``  -- the successor state (the model's transition function),
* ``observe(state, ctx)`` -- drive the *real* modepy code into the situation the
  state describes and compare every observation with the reference model.

:func:`explore` enumerates the reachable state graph breadth first, *completely*
(there is no state, depth or time cap below the declared bound: the bound is part
of the model, via ``events``), and then evaluates ``observe`` on every single state.
The evaluation is spread over a fixed number of worker processes by a fixed
partition, so a run is deterministic.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

NWORKERS = 8
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE_TIMEOUT = {"quick": 100, "thorough": 300}
MAX_TIMEOUTS = 2      # per worker; the states after that are not evaluated


class StateTimeout(BaseException):
    pass


class Bail(Exception):
    """Raised by a check to stop observing a state after a recorded violation."""


class Ctx:
    """Collects the comparisons made in one state."""

    def __init__(self, state):
        self.state = state
        self.nobs = 0
        self.violations = []
        self.maxerr = 0.0
        self.outcome = []

    # -- recording ---------------------------------------------------------
    def fail(self, label, msg):
        self.violations.append((str(label), str(msg)[:2000]))

    def note(self, x):
        """Record an observed outcome (for the distinct-outcomes count)."""
        self.outcome.append(x)

    def true(self, label, cond, msg=""):
        self.nobs += 1
        if not bool(cond):
            self.fail(label, msg or "condition is false")
        return bool(cond)

    def eq(self, label, got, want):
        self.nobs += 1
        ok = got == want
        try:
            ok = bool(ok)
        except Exception:
            ok = False
        if not ok:
            self.fail(label, f"got {got!r}, the model says {want!r}")
        return ok

    def close(self, label, got, want, tol, msg=""):
        """abs(got-want) <= tol elementwise (tol may be an array); shapes must match
        after numpy conversion unless *want* is scalar."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if want.shape != () and got.shape != want.shape:
            self.nobs += 1
            self.fail(label, f"shape {got.shape}, the model says {want.shape} {msg}")
            return False
        self.nobs += max(int(got.size), 1)
        if got.dtype == object:
            got = got.astype(complex)
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            rel = np.where(err == 0, 0.0, err / np.asarray(tol, dtype=float))
        if err.size == 0:
            return True
        bad = ~(rel <= 1)
        m = float(np.max(np.where(np.isnan(rel), np.inf, rel)))
        self.maxerr = max(self.maxerr, m)
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.shape else ()
            g = got[idx] if got.shape else got
            w = want[idx] if want.shape else want
            self.fail(label, f"{int(bad.sum())} of {bad.size} observations differ; "
                      f"first at index {idx}: got {g!r}, the model says {w!r} "
                      f"(allowed deviation "
                      f"{float(np.broadcast_to(tol, bad.shape)[idx]):.3g}) {msg}")
            return False
        return True

    def raises(self, label, exc, fn, what=""):
        self.nobs += 1
        try:
            r = fn()
        except exc as e:
            return e
        except StateTimeout:
            raise
        except BaseException as e:
            self.fail(label, f"{what} raised {type(e).__name__}: {e}; the model says "
                      f"{exc}")
            return None
        self.fail(label, f"{what} was accepted (returned {r!r:.200}); the model says "
                  f"it must be rejected with {exc}")
        return None


class Model:
    id = "?"
    technique = ""
    level = "model_checking"
    bounds = ""
    assumptions: list[str] = []

    def init(self, tier):
        raise NotImplementedError

    def events(self, state, tier):
        return []

    def step(self, state, event):
        raise NotImplementedError

    def observe(self, state, ctx):
        raise NotImplementedError

    def keep(self, state):
        """States outside the modelled domain are passed through, not counted."""
        return True

    def prepare(self, tier):
        """Called once in the parent before the workers are forked."""

    def extra_coverage(self):
        return {}


class GridModel(Model):
    """A model whose states are the points of (a union of) finite grids.

    ``grids(tier)`` yields ``(name, {axis: [values...]})``. The initial state of each
    grid is its smallest corner; the events advance one axis by one position.
    """

    def grids(self, tier):
        raise NotImplementedError

    def _load(self, tier):
        self._g = {name: (list(axes), [list(v) for v in axes.values()])
                   for name, axes in self.grids(tier)}

    def init(self, tier):
        self._load(tier)
        return [(name, *(0,) * len(ax[1])) for name, ax in self._g.items()
                if all(ax[1])]

    def valid(self, name, cfg):
        return True

    def events(self, state, tier):
        name, *idx = state
        return [i for i, k in enumerate(idx) if k + 1 < len(self._g[name][1][i])]

    def step(self, state, event):
        name, *idx = state
        idx[event] += 1
        return (name, *idx)

    def keep(self, state):
        return self.valid(*self.config(state))

    def config(self, state):
        name, *idx = state
        axes, vals = self._g[name]
        return name, {a: vals[i][k] for i, (a, k) in enumerate(zip(axes, idx))}

    def observe(self, state, ctx):
        name, cfg = self.config(state)
        getattr(self, "obs_" + name)(ctx, **cfg)

    def describe(self, state):
        name, cfg = self.config(state)
        return {"grid": name, **cfg}


def build_graph(model, tier):
    seen = {}
    frontier = collections.deque()
    for s in model.init(tier):
        if s not in seen:
            seen[s] = (None, None)
            frontier.append(s)
    transitions = 0
    order = []
    keep = {}

    def kept(s):
        if s not in keep:
            keep[s] = bool(model.keep(s))
        return keep[s]

    while frontier:
        s = frontier.popleft()
        if kept(s):
            order.append(s)
        for ev in model.events(s, tier):
            t = model.step(s, ev)
            if kept(s) and kept(t):
                transitions += 1
            if t not in seen:
                seen[t] = (s, ev)
                frontier.append(t)
    return order, transitions, seen


def path_to(seen, s):
    path = []
    while seen[s][0] is not None:
        s, ev = seen[s][0], seen[s][1]
        path.append(ev)
    return s, path[::-1]


def _alarm(signum, frame):
    raise StateTimeout()


def observe_state(model, s):
    ctx = Ctx(s)
    signal.signal(signal.SIGALRM, _alarm)
    limit = STATE_TIMEOUT.get(getattr(model, "tier", "quick"), 300)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model.observe(s, ctx)
    except StateTimeout:
        ctx.fail("no-termination", f"no answer within {limit} s")
    except Bail:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}"
        ctx.fail("exception", f"{type(e).__name__}: {e} (at {at})\n"
                 + "".join(traceback.format_exception(e))[-500:])
    finally:
        signal.alarm(0)
    return ctx


def _worker(model, states, k, wfd):
    out = []
    timeouts = 0
    for i in range(k, len(states), NWORKERS):
        c = observe_state(model, states[i])
        timeouts += any(v[0] == "no-termination" for v in c.violations)
        o = hashlib.sha1(repr(c.outcome).encode()).hexdigest()[:16] if c.outcome \
            else None
        out.append((i, c.nobs, c.maxerr, o, c.violations))
        if timeouts >= MAX_TIMEOUTS:
            break
    with os.fdopen(wfd, "wb") as f:
        import pickle
        pickle.dump((out, getattr(model, "stats", None)), f)


def run_workers(model, states):
    import pickle
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(NWORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            rc = 1
            try:
                _worker(model, states, k, w)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        os.close(w)
        procs.append((pid, r))
    results = []
    stats = []
    failed = False
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            failed = True
            continue
        out, st = pickle.loads(data)
        results.extend(out)
        if st:
            stats.append(st)
    if failed:
        raise RuntimeError("a worker process died")
    results.sort()
    return results, stats


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def tupled(x):
    return tuple(tupled(v) for v in x) if isinstance(x, list) else x


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                if d.get("property") == pid:
                    out[d["key"]] = parts[2] if len(parts) > 2 else ""
    return out


def describe(model, s):
    return jsonable(model.describe(s)) if hasattr(model, "describe") else jsonable(s)


def finding_key(model, s, label):
    d = json.dumps(describe(model, s), sort_keys=True)
    return hashlib.sha1(d.encode()).hexdigest()[:10] + ":" + str(label).replace(" ", "_")


def main_check(model, tier, seed):
    t0 = time.time()
    model.tier = tier
    try:
        model.prepare(tier)
        states, transitions, seen = build_graph(model, tier)
    except Exception as e:
        # the unchanged code gets through this; it only calls documented entry points
        tb = traceback.extract_tb(e.__traceback__)
        if not any(os.sep + "modepy" + os.sep in f.filename for f in tb):
            raise
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{model.id}-setup.json")
        with open(p, "w") as f:
            json.dump({"property": model.id, "tier": tier, "state": None,
                       "message": traceback.format_exc()}, f, indent=1)
        traceback.print_exc(file=sys.stdout)
        print(f"VIOLATION property={model.id} replay={p}")
        return 1
    results, stats = run_workers(model, states)
    nobs = sum(r[1] for r in results)
    maxerr = max((r[2] for r in results), default=0.0)
    outcomes = {r[3] for r in results if r[3]}
    viols = [(states[i], lab, msg) for i, _, _, _, vs in results for lab, msg in vs]
    known = known_findings(model.id)
    fresh, old = [], []
    for s, lab, msg in viols:
        key = finding_key(model, s, lab)
        (old if key in known else fresh).append((s, lab, msg, key))
    printed = set()
    for s, lab, msg, key in old:
        if key not in printed:
            printed.add(key)
            print(f"KNOWN-FINDING: property={model.id} {known[key] or key}")
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = 0
    for s, lab, msg, key in fresh:
        if shown >= 12:
            break
        shown += 1
        root, path = path_to(seen, s)
        p = os.path.join(rdir, f"{model.id}-{key.replace(':', '-').replace('/', '_')[:80]}.json")
        with open(p, "w") as f:
            json.dump({"property": model.id, "tier": tier, "state": jsonable(s),
                       "initial_state": jsonable(root), "events": jsonable(path),
                       "config": describe(model, s), "label": lab, "message": msg,
                       "key": key,
                       "rerun": f"./run {model.id} --tier {tier} --replay {p}"},
                      f, indent=1)
        print(f"--- {lab} in state {json.dumps(describe(model, s))}: "
              f"{msg.splitlines()[0][:600] if msg else ''}")
        print(f"VIOLATION property={model.id} replay={p}")
    if len(fresh) > shown:
        print(f"({len(fresh) - shown} further violations not shown)")
    n = len(states)
    sample_idx = sorted({0, n // 4, n // 2, (3 * n) // 4, n - 1} & set(range(n)))
    by_i = {r[0]: r for r in results}
    samples = []
    for i in sample_idx:
        if i not in by_i:
            continue
        root, path = path_to(seen, states[i])
        samples.append({"state": describe(model, states[i]),
                        "events_from_initial": jsonable(path)[:40],
                        "observations": by_i[i][1],
                        "worst_error_over_tolerance": by_i[i][2]})
    cov = {
        "states": n,
        "transitions": transitions,
        "traces_validated_against_impl": sum(1 for r in results if r[1] > 0),
        "observations_compared": nobs,
        "worst_error_over_tolerance": maxerr,
        "exhaustive": True,
        "bounds": model.bounds,
        "samples": samples,
    }
    if outcomes:
        cov["distinct_outcomes"] = len(outcomes)
    cov.update(model.extra_coverage())
    for st in stats:
        for k, v in st.items():
            cov[k] = cov.get(k, 0) + v
    ev = {"property": model.id, "tier": tier, "seed": seed, "level": model.level,
          "coverage": cov, "assumptions": list(model.assumptions),
          "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{model.id}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{model.id}.json"))
    print(f"{model.id} [{tier}]: {n} states, {transitions} transitions, {nobs} "
          f"observations compared, worst error/tolerance {maxerr:.3g}, "
          f"{len(fresh)} violations, {len(old)} known, {time.time() - t0:.1f} s")
    return 1 if fresh else 0


def main_replay(model, tier, path):
    rec = json.load(open(path))
    model.tier = tier
    model.prepare(tier)
    model.init(tier)
    s = tupled(rec["state"])
    a = observe_state(model, s)
    b = observe_state(model, s)
    if [v[0] for v in a.violations] != [v[0] for v in b.violations]:
        print("replaying the same state twice gave different observations")
        return 2
    for lab, msg in a.violations:
        print(f"--- {lab} in state {json.dumps(describe(model, s))}: {msg}")
    if a.violations:
        print(f"VIOLATION property={model.id} replay={path}")
        return 1
    print(f"{model.id}: the recorded state no longer violates the property")
    return 0
