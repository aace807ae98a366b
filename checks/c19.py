"""C19: pending calls are retried with exponential backoff, at most six times."""
from vf import env, probe, tla
from .world import World

SRC = """def {name}(x):
    import vprobe
    return vprobe.body(x)
"""


class Failed(Exception):
    pass


class Calls(World):
    def __init__(self, init):
        super().__init__(init["n"])
        self.backend.tick = 0
        probe.install(body=self.body)
        self.fail = True
        self.args = {c: self.rng.choice([i, str(i), [i]]) for i, c in enumerate(init["attempts"])}
        # two calls of one function, or of two with similar names
        self.fn = {c: self.rng.choice(["f", "f1"]) for c in self.args}
        self.start()

    def start(self):
        self.portal("p", "d1")
        self.portal("q", "d2")
        self.fns, self.addr = {}, {}
        for c in self.args:
            for p in "pq":
                self.fns[c, p] = self.p.pure(portal=self.portals[p])(SRC.format(name=self.fn[c]))

    def address(self, c, fresh=None):
        """The address of the call: one and the same, or a new one each time."""
        if self.rng.random() < .5 or c not in self.addr:
            self.addr[c] = self.fns[c, "p"].get_address(x=self.args[c])
        return self.addr[c]

    def body(self, x):
        if self.fail:
            c = self.now
            self.inside = self.fns[c, "p"].get_address(x=self.args[c]).needs_execution
            raise Failed("not yet")
        return ["result", x]

    def step(self, e):
        return getattr(self, "do_" + e["a"])(e)

    def do_Attempt(self, e):
        self.now, self.inside = e["c"], None
        try:
            r = self.rng.random()
            if r < .4:
                self.fns[e["c"], "p"](x=self.args[e["c"]])
            elif r < .7:
                self.address(e["c"]).execute()
            else:
                self.fns[e["c"], "p"].run(x=self.args[e["c"]])
        except Failed:
            pass
        return dict(inside=self.inside)

    def do_Wait(self, e):
        env.clock.t += e["t"]

    def do_Publish(self, e):
        """Some process stores the result: its attempt counts only if it is in the same
        portal, but then there is a result and it does not matter."""
        self.fail = False
        p = {"own": "p", "other": "q"}[e["where"]]
        mine = self.rng.random() < .5
        if p == "p" and mine:
            self.fns[e["c"], p](x=self.args[e["c"]])
        else:
            self.fns[e["c"], p].run(x=self.args[e["c"]])
        self.fail = True

    def do_Request(self, e):
        r = self.rng.random()
        if r < .5:
            self.address(e["c"]).request_execution()
        else:
            self.fns[e["c"], "p"].swarm(x=self.args[e["c"]])

    def do_Withdraw(self, e):
        self.address(e["c"]).drop_execution_request()

    def do_Restart(self, e):
        self.forget()
        self.start()

    def do_Ask(self, e):
        a = self.address(e["c"])
        before = {k: v[0] for k, v in self.backend.blobs.items()}
        needs = a.needs_execution
        if needs is not a.needs_execution:
            raise RuntimeError("asking twice gives two answers")
        after = {k: v[0] for k, v in self.backend.blobs.items()}
        if e["o"]["needs"] and before != after:
            raise RuntimeError("asking changes " + str(set(before) ^ set(after)))
        if {k for k in before.keys() ^ after.keys() if "/run_history/" in k or "requests" in k}:
            raise RuntimeError("asking leaves records")
        if a.ready:
            return dict(needs=needs, attempts=e["o"]["attempts"], requested=e["o"]["requested"])
        return dict(needs=needs, attempts=len(a.execution_attempts), requested=a.execution_requested)


def run(ctx):
    on = dict(view="View", action_constraint="Emit", invariants=["AtMostSix", "FirstTry", "Quiet"],
              properties=["Persist"])
    base = dict(MaxAttempts=7, Give=5, Base=10)
    one, *sims = ctx.parallel(
        [lambda: ctx.tlc("Retry", constants=dict(base, Calls={"c"}), **on)]
        + [lambda k=k: ctx.tlc("Retry", constants=dict(base, Calls={"c", "d"}),
                               simulate=ctx.pick(100, 2000), depth=60, seed=ctx.seed * 10 + k, next="Late",
                               **(on | dict(properties=[]))) for k in range(2)])
    g = tla.Graph(one)
    n = 0
    for label, bs in (("one call", g.cover(ctx.rng, 40) + g.walks(ctx.rng, ctx.pick(100, 3000), 60)),
                      ("two calls", sum((tla.split_simulation(r.lines) for r in sims), []))):
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
        ctx.replay(bs, Calls, label=label, chunk=4, timeout=200)
