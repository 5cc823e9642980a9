"""C29: two threads calling modepy at once get the answers they would get alone."""
from mc import apicalls as api
from mc import sched
from mc.checks.c27 import CORE
from mc.engine import Model


class MODEL(Model):
    id = "C29"
    bounds = ("two threads under a controlled scheduler, cold caches (a fresh process per "
              "schedule), preemption points: before every distinct source line reached "
              "(first occurrence; thorough: first, second and last); every call of the "
              "table (quick: of up to 130 lines) against itself with other arguments with "
              "one preemption, all ordered pairs of the calls sharing module state with "
              "one, themselves with two (thorough: two preemptions for every call against "
              "itself up to 60 lines)")
    assumptions = ["threads are preempted at line granularity; a C call is atomic",
                   "the argument sets of the call table are representative of each call"]

    def prepare(self, tier):
        api.preload()
        self.fresh, self.lines = {}, {}
        self.calls = api.CALLS | {n + "'": f for n, f in api.ALT.items()}
        for n, f in self.calls.items():
            self.fresh[n] = api.isolated(lambda f=f: api.norm(f()))
            ev = api.isolated(lambda f=f: sched.trace_lines(f))
            first, second, last = {}, {}, {}
            for k, e in enumerate(ev):
                if e in first:
                    second.setdefault(e, k)
                first.setdefault(e, k)
                last[e] = k
            ks = set(first.values())
            if tier != "quick":
                ks |= set(second.values()) | set(last.values())
            self.lines[n] = [sorted(first.values()), sorted(ks)]

    def init(self, tier):
        q = tier == "quick"
        core = CORE[:5] if q else CORE
        pairs = [(n, n + "'") for n in api.CALLS
                 if not q or len(self.lines[n][0]) <= 130 or n == "wb2"]
        pairs += [(a, b) for a in core for b in core if a != b]
        return [(a, b, ()) for a, b in pairs]

    def events(self, s, tier):
        a, b, ks = s
        if not ks:
            return self.lines[a][1]
        if len(ks) == 1 and b == a + "'":
            f = self.lines[b][0]
            if ks[0] in self.lines[a][0]:
                if tier == "quick":
                    few = a in CORE and len(f) <= 12
                else:
                    few = len(f) <= 60
                return f[1:] if few else []
        return []

    def step(self, s, ev):
        return (*s[:2], (*s[2], ev))

    def describe(self, s):
        return {"threads": [s[0], s[1]],
                "preempt": ["thread %d before its line event %d" % (i, k)
                            for i, k in enumerate(s[2])]}

    def observe(self, s, ctx):
        a, b, ks = s

        def run():
            fa, fb = self.calls[a], self.calls[b]
            sc = sched.Schedule([lambda: api.norm(fa()), lambda: api.norm(fb())],
                                [set(ks[:1]), set(ks[1:2])])
            out = sc.run()
            later = [api.norm(fa()), api.norm(fb())]
            return out, later, sc.switches

        try:
            out, later, switches = api.isolated(run)
        except RuntimeError as e:
            ctx.fail("schedule", f"{s}: {e}")
            return
        for t, n in enumerate((a, b)):
            kind, val = out[t]
            ok = kind == "ok" and api.same(val, self.fresh[n])
            ctx.true(n, ok, f"thread {t} ({n}) got {str(val)[:300]}; alone it gets "
                     f"{str(self.fresh[n])[:300]}")
            ctx.true(n + "-later", api.same(later[t], self.fresh[n]),
                     f"a later call of {n} gives {str(later[t])[:300]}; alone "
                     f"{str(self.fresh[n])[:300]}")
        ctx.note(switches)
