"""C27: every public call gives its pristine answer after every history of other calls."""
from mc import apicalls as api
from mc.engine import Model

# calls that go through module-level state (caches, tables, memoized members), plus
# the ones sharing a table file with them
CORE = ["kron", "quadgk", "strip", "e2u-inverse", "affine", "wv2", "xg-tri", "js",
        "strip2", "wb2", "faces2", "kron2", "e2u", "vr-tri", "vert2", "cc"]


class MODEL(Model):
    id = "C27"
    bounds = ("all %d public calls of the table, each plain, followed by the caller "
              "overwriting everything it was given, and with other argument values; "
              "histories: all of length 1, length 2 over 7 calls that share module-level state (thorough: all pairs of "
              "overwriting calls, all kinds over 16 calls, length 3 over 8 of them); "
              "after each history all calls are compared with their answer in a fresh "
              "process" % len(api.CALLS))
    assumptions = ["the argument sets of the call table are representative of each call"]

    def init(self, tier):
        return [()]

    def events(self, s, tier):
        core = CORE[:7] if tier == "quick" else CORE
        evs = [(n, k) for n in api.CALLS for k in (0, 1, 2)]
        if not s:
            return evs
        inner = [e for e in evs if e[0] in core]
        if len(s) == 1 and tier == "quick":
            return inner if s[0] in inner else []
        if len(s) == 1:
            return [e for e in evs if e[1] == s[0][1] == 1 or e in inner and s[0] in inner]
        if len(s) == 2 and tier != "quick":
            deep = [e for e in evs if e[0] in core[:8] and e[1] == 1]
            return deep if all(e in deep for e in s) else []
        return []

    def step(self, s, ev):
        return (*s, ev)

    def describe(self, s):
        return {"history": [n + ["", " then overwrite the result",
                                 " with other arguments"][k]
                            for n, k in s]}

    def prepare(self, tier):
        api.preload()
        self.fresh = {n: api.isolated(lambda f=f: api.norm(f()))
                      for n, f in api.CALLS.items()}

    def observe(self, s, ctx):
        def run():
            for name, k in s:
                out = (api.ALT if k == 2 else api.CALLS)[name]()
                if k == 1:
                    api.scribble(out)
            return {n: api.norm(f()) for n, f in api.CALLS.items()}

        try:
            got = api.isolated(run)
        except RuntimeError as e:
            ctx.fail("raises", f"after {s}: {e}")
            return
        for n, want in self.fresh.items():
            ctx.true(n, api.same(got[n], want),
                     f"after the history {list(s)} the call {n!r} answers "
                     f"{str(got[n])[:300]}, in a fresh process {str(want)[:300]}")
        ctx.note(len(s))
