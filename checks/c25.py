"""C25: batches of calls."""
from vf import probe, tla
from .world import World

FRESH = [lambda v: [v, [1]], lambda v: {"k": v, "l": [2]}, lambda v: f"s{v}", lambda v: v, lambda v: v + .5,
         lambda v: (v, None), lambda v: {v, "s"}, lambda v: [[], {}, v], lambda v: b"%d" % v]
MALFORMED = ["none", "dict", "generator", "set", "number", "text", "text inside", "None inside", "pairs inside",
             "number as key", "list inside", "empty grid list", "grid number", "grid of text", "grid none", "iterator"]
TEXTS = ["def f(x='no x', y='no y'):\n    import vprobe\n    return vprobe.body(x, y)\n",
         "def f(*, y='no y', x='no x'):\n    import vprobe\n    return vprobe.body(x, y)\n"]


class Fails(Exception):
    pass


class Batches(World):
    def __init__(self, init):
        super().__init__(init["n"])
        self.bad = [(e["x"], e["y"]) for e in init["bad"]]
        r = self.rng
        self.make = {p: r.choice(FRESH) for p in "xy"}
        self.p_, self.q_ = self.portal("p"), self.portal("q")
        isle, text = r.choice([None, "isle"]), r.choice(TEXTS)
        self.f = self.p.pure(island_name=isle, portal=self.p_)(text)
        self.g = self.p.pure(island_name=isle, portal=self.q_)(text)
        probe.install(body=self.body)
        self.vals = init["vals"]
        self.elements = [(x, y) for x in init["vals"] for y in init["vals"]]
        self.addr = None

    def body(self, x, y):
        e = self.element([x, y])
        if e in self.bad:
            raise Fails(e)
        return [x, y]

    def element(self, xy):
        return tuple(next(v for v in self.vals if (self.make[p](v) if v else f"no {p}") == got)
                     for p, got in zip("xy", xy))

    def value(self, p, v):
        x = self.make[p](v)
        self.given.append(x)
        if self.rng.random() < .15:
            with self.p_:
                return self.p.ValueAddr(x)
        return x

    def kwargs(self, e):
        items = [(p, self.value(p, v)) for p, v in zip("xy", e) if v]
        self.rng.shuffle(items)
        return dict(items)

    def spoil(self):
        """Whoever made the arguments may change them once the call is made."""
        for x in self.given:
            if isinstance(x, list):
                x.append("changed")
            elif isinstance(x, dict):
                x["changed"] = 1
            elif isinstance(x, set):
                x.add("changed")

    def names(self, addrs):
        if not isinstance(addrs, list):
            return f"a {type(addrs).__name__}"
        return [self.back.get(str(a), "another address") for a in addrs]

    @staticmethod
    def pair(e):
        return (e["x"], e["y"])

    def step(self, e):
        self.given = []
        if self.addr is None:
            self.addr = {x: self.f.get_address(**self.kwargs(x)) for x in self.elements}
            self.back = {str(a): dict(x=x[0], y=x[1]) for x, a in self.addr.items()}
        self.given = []
        entered = self.rng.choice([None, None, self.p_, self.q_])
        if entered is not None:
            with entered:
                o = getattr(self, "do_" + e["a"])(e)
        else:
            o = getattr(self, "do_" + e["a"])(e)
        self.spoil()
        o["req_s"] = [dict(x=x, y=y) for (x, y), a in self.addr.items() if a in self.p_.execution_requests]
        o["here_s"] = [dict(x=x, y=y) for (x, y), a in self.addr.items() if a in self.p_.execution_results]
        o["there"] = len(self.q_.execution_results)
        if len(self.p_.execution_results) != len(o["here_s"]) or len(self.p_.execution_requests) != len(o["req_s"]):
            o["here_s"] = "something else, too"
        return o

    def batch(self, e):
        L = [self.pair(x) for x in e["batch"]]
        if not e["as"]["grid"]:
            xs = [self.kwargs(x) for x in L]
            return "list", (tuple(xs) if self.rng.random() < .2 else xs)
        g = [(p, [self.value(p, v) for v in e["as"][p]["vals"]]) for p in "xy" if e["as"][p]["given"]]
        self.rng.shuffle(g)
        return "grid", dict(g)

    def do_Swarm(self, e):
        how, b = self.batch(e)
        self.last = getattr(self.f, "swarm_" + how)(b)
        key = "addrs_s" if how == "grid" else "addrs"
        self.order = [self.pair(x) for x in self.names(self.last)] if how == "grid" else [self.pair(x) for x in e["batch"]]
        return {key: self.names(self.last)}

    def do_Run(self, e):
        how, b = self.batch(e)
        try:
            self.last = getattr(self.f, "run_" + how)(b)
        except Fails:
            for x in {self.pair(x) for x in e["batch"]}:
                a = self.f.get_address(**self.kwargs(x))
                ready, req = a in self.p_.execution_results, a in self.p_.execution_requests
                if ready == req:
                    return dict(raised=f"{x}: result {ready}, requested {req}")
                if x not in self.bad:
                    self.f(**self.kwargs(x))
            return dict(raised=True)
        s = "_s" if how == "grid" else ""
        vals = [self.element(a.get(timeout=0)) for a in self.last]
        self.order = vals
        return {"addrs" + s: self.names(self.last), "values" + s: [dict(x=x, y=y) for x, y in vals]}

    def do_Call(self, e):
        x = self.pair(e["e"])
        try:
            if self.rng.random() < .5:
                v = self.f(**self.kwargs(x))
            else:
                v = self.f.run(**self.kwargs(x)).get(timeout=0)
        except Fails:
            return dict(raised=True)
        return dict(raised=False if self.element(v) == x else f"is {v}")

    def do_CallThere(self, e):
        self.g(**self.kwargs(self.pair(e["e"])))
        return {}

    def do_Address(self, e):
        # in a grid, the element wanted is somewhere in the list
        i = e["i"] - 1
        if e["elem"] != list(self.order[i]):
            i = next(k for k, x in enumerate(self.order) if list(x) == e["elem"])
        try:
            v = self.last[i].execute()
        except Fails:
            return dict(raised=True)
        return dict(raised=False if list(self.element(v)) == e["elem"] else f"is {v}")

    def do_Refuse(self, e):
        L = [self.kwargs(self.pair(x)) for x in e["batch"]]
        w = e["what"]
        at = self.rng.randint(0, len(L))
        put = lambda x: L[:at] + [x] + L[at:]
        b = {"none": lambda: None, "dict": lambda: L[0] if L else {}, "generator": lambda: (x for x in L),
             "iterator": lambda: iter(L), "set": lambda: {("x", 1)}, "number": lambda: 3, "text": lambda: "xy",
             "text inside": lambda: put("xy"), "None inside": lambda: put(None), "list inside": lambda: put([{}]),
             "pairs inside": lambda: put([("x", 1)]), "number as key": lambda: put({1: 2}),
             "empty grid list": lambda: {"x": [1], "y": []}, "grid number": lambda: {"x": 1},
             "grid of text": lambda: {"x": [1], "y": "ab"}, "grid none": lambda: None}[w]()
        how = "grid" if "grid" in w else "list"
        try:
            got = getattr(self.f, f"{e['op']}_{how}")(b)
        except Exception:
            return dict(refused=True)
        return dict(refused=f"returned {got}")


def with_elements(b):
    """For events on an address: which element it is, and what is there to be looked at."""
    last = []
    for e in b["events"]:
        if e["a"] in ("Swarm", "Run"):
            last = e["batch"]
        if e["a"] == "Address":
            x = last[e["i"] - 1]
            e["elem"] = [x["x"], x["y"]]
    return b


def run(ctx):
    inv = dict(view="View", action_constraint="Emit", invariants=["TypeOK", "Sound", "Pending"])
    c = dict(Vals={0, 1, 2}, Malformed=set(MALFORMED))
    jobs = [lambda: ctx.tlc("Batches", constants=dict(Vals={0, 1}, MaxLen=2, MaxSteps=2, Malformed={"none", "None inside"}),
                            next="NextAll", properties=["Settled"], **inv)]
    jobs += [lambda k=k: ctx.tlc("Batches", constants=dict(c, MaxLen=k, MaxSteps=7), simulate=ctx.pick(130, 3000), depth=9,
                                 seed=ctx.seed * 10 + k, **inv) for k in (2, 4, 7)]
    jobs += [lambda: ctx.tlc("Batches", constants=dict(c, Vals={0, 1, 2, 3}, MaxLen=14, MaxSteps=5), simulate=ctx.pick(60, 1500),
                             depth=7, seed=ctx.seed * 10 + 9, **inv)]
    jobs += [lambda: ctx.tlc("Batches", constants=dict(c, Vals=set(range(9)), MaxLen=150, MaxSteps=3), simulate=ctx.pick(40, 300),
                             depth=5, seed=ctx.seed * 10 + 8, **inv)]
    small, *sims, large = ctx.parallel(jobs)
    n = 0
    for label, bs in (("all small", ctx.some(tla.Graph(small).cover(ctx.rng, 40), ctx.pick(150, 10 ** 6))),
                      ("simulated", sum((tla.split_simulation(r.lines) for r in sims), [])),
                      ("large", tla.split_simulation(large.lines))):
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed, vals=list(range(dict(large=9, simulated=4).get(label, 2))))
            with_elements(b)
        ctx.replay(bs, Batches, label=label, chunk=4, timeout=200)
