"""C18: guards."""
import pickle

from vf import probe, tla
from .world import World

BAD = ["unknown name", "itself", "loose function", "loose name", "other island", "name in another island",
       "other portal", "ordinary", "plain function", "number", "None inside", "list inside",
       "namesake elsewhere", "namesake in another portal"]
FRESH = [lambda v: [v, [1]], lambda v: {"k": v}, lambda v: f"s{v}", lambda v: v, lambda v: (v, None), lambda v: b"%d" % v]
ERRORS = [ValueError, AssertionError, ImportError, KeyboardInterrupt, SystemExit, KeyError, OSError]


class Guards(World):
    def __init__(self, init):
        super().__init__(init["n"])
        r = self.rng
        self.g = {"kk": init["fg"], "hh": init["hg"]}
        self.p_checks = 1 if init["p"] else r.choice([0, None])
        self.allow = {g: set(v) for g, v in init["allow"].items()}
        self.fresh = r.choice(FRESH)
        self.isle = r.choice([None, "isle"])
        self.kept = {}       # addresses as they may be passed from session to session
        self.log = []
        self.count_ = 0
        self.strict = r.random() < .8
        self.version = 1
        probe.install(guard=self.guard, body=self.body)
        self.sess()
        for f in r.sample(["kk", "hh"], 2):
            self.define(f)

    # --- functions
    def sess(self):
        self.forget()
        self.P = self.portal("p", p_consistency_checks=self.p_checks)
        self.fn, self.guards = {}, {}

    def guard_source(self, g, v=1):
        return (f"def {g}(x, y='no y'):\n    import vprobe\n    version = {v}\n"
                f"    return vprobe.guard('{g}', x, y)\n")

    SOURCE = {"kk": "def kk(x, y='no y'):\n    import vprobe\n    return vprobe.body('kk', x, y)\n",
              "hh": "def hh(x, y='no y'):\n    import vprobe\n    vprobe.body('hh', x, y)\n"
                    "    return kk(x=x) if y == 'no y' else kk(x=x, y=y)\n"}

    def need(self, g):
        if g not in self.guards:
            self.guards[g] = self.p.strictly_autonomous(island_name=self.isle, portal=self.P)(self.guard_source(g))
        return self.guards[g]

    def form(self, gs):
        r = self.rng
        ws = [self.need(g) for g in r.sample(gs, len(gs))]
        ws = [w if r.random() < .5 else w.fn_name for w in ws]
        if not ws:
            return None
        return ws[0] if len(ws) == 1 and r.random() < .5 else ws

    def define(self, f, gs=None):
        self.fn[f] = self.p.pure(island_name=self.isle, guards=self.form(self.g[f] if gs is None else gs),
                                 portal=self.P)(self.SOURCE[f])

    # --- what the functions do
    def arg(self, v):
        kw = dict(x=self.fresh(v))
        if v % 2:
            kw["y"] = [v]
        return kw

    def guard(self, g, x, y):
        want = self.arg(self.now)
        same = (x, y) == (want["x"], want.get("y", "no y"))
        self.log.append((g, same))
        if not same or self.now not in self.allow[g]:
            raise self.rng.choice(ERRORS)(g)
        return self.rng.choice([None, False, 0, ""])

    def body(self, f, x, y):
        want = self.arg(self.now)
        self.log.append((f, (x, y) == (want["x"], want.get("y", "no y"))))
        return ["result", x]

    def segments(self, asked=None):
        """asked: which function's guards were asked without the intention to run it."""
        out, gs, stages = [], [], []
        bad = [f"{w} got other arguments" for w, same in self.log if not same]
        if bad:
            return bad
        for w, _ in self.log + [("-", 1)]:
            if w in self.allow:
                gs.append(w)
            else:
                if w != "-" or gs or asked:
                    out.append(dict(g=sorted(set(gs)), b=w))
                gs = []
        if out and out[-1]["b"] == "-":
            got = set(out[-1]["g"])
            prev = [s["b"] for s in out[:-1]]
            f = asked or ("kk" if prev == ["hh"] or self.called == "kk" else "hh")
            blocking = {g for g in self.g[f] if self.now not in self.allow[g]}
            if got <= set(self.g[f]) and got & blocking:
                out[-1]["g"] = ["failed"]
        return out

    # --- steps
    def step(self, e):
        self.log, self.now, self.called = [], e.get("x"), e.get("f")
        entered = self.rng.random() < .3
        if entered:
            self.P.__enter__()
        mine = self.P
        try:
            o = getattr(self, "do_" + e["a"])(e)
        finally:
            if entered and self.P is mine:
                mine.__exit__(None, None, None)
        o.setdefault("log", self.segments())
        o["req_s"], o["done_s"] = [], []
        self.now = None
        for f in ("kk", "hh"):
            for v in (0, 1, 2):
                a = self.fn[f].get_address(**self.arg(v))
                if a in self.P.execution_requests:
                    o["req_s"].append([f, v])
                if a in self.P.execution_results:
                    o["done_s"].append([f, v])
        return o

    def address(self, e):
        a = self.kept.get((e["f"], e["x"]))
        if a is not None and self.rng.random() < .5:
            with self.P:
                return pickle.loads(a)
        a = self.fn[e["f"]].get_address(**self.arg(e["x"]))
        self.kept[e["f"], e["x"]] = pickle.dumps(a)
        return a

    def kwargs(self, e):
        kw = self.arg(e["x"])
        for k in kw:
            if self.rng.random() < .25:
                with self.P:
                    kw[k] = self.p.ValueAddr(kw[k])
        return kw

    def do_Call(self, e):
        how = self.rng.choice(["direct", "direct", "address", "run", "execute"])
        f = self.fn[e["f"]]
        try:
            if how == "address":
                v = self.address(e).execute()
            elif how == "run":
                v = f.run(**self.kwargs(e)).get(timeout=0)
            elif how == "execute":
                v = f.execute(**self.kwargs(e))
            else:
                v = f(**self.kwargs(e))
        except Exception:
            return dict(ok=False)
        return dict(ok=True if v == ["result", self.arg(e["x"])["x"]] else f"is {v}")

    def do_Can(self, e):
        runs = self.count("p", "run_history")
        if self.rng.random() < .5:
            can = self.fn[e["f"]].can_be_executed(**self.kwargs(e))
        else:
            can = self.address(e).can_be_executed
        if self.count("p", "run_history") != runs:
            can = f"{can}, and it was run"
        return dict(can=can, log=self.segments(asked=e["f"]))

    def do_Swarm(self, e):
        if self.rng.random() < .5:
            self.fn[e["f"]].swarm(**self.kwargs(e))
        else:
            self.address(e).request_execution()
        return {}

    def do_World(self, e):
        self.allow[e["g"]] = set(e["lets"])
        return {}

    def do_Session(self, e):
        self.sess()
        for f in self.rng.sample(["kk", "hh"], 2):
            known = [k for k in self.kept if k[0] == f]
            if known and self.rng.random() < .6:
                with self.P:
                    a = pickle.loads(self.kept[self.rng.choice(known)])
                    self.fn[f] = a.function
                    if self.rng.random() < .5:
                        # what came along can be used like any other function of the island
                        for g in self.g[f]:
                            self.guards[g] = self.P.known_functions[self.fn[f].island_name][g]
            else:
                self.define(f)
        return {}

    def do_Again(self, e):
        self.define(e["f"])
        return dict(accepted=True)

    def do_Other(self, e):
        mine = self.fn[e["f"]]
        try:
            self.define(e["f"], e["guards"])
        except Exception:
            return dict(accepted=False)
        finally:
            self.fn[e["f"]] = mine
        return dict(accepted=True)

    def do_Bad(self, e):
        k, p, P = e["kind"], self.p, self.P
        self.count_ += 1
        name, w = f"nn{self.count_}", f"ww{self.count_}"
        loose = f"def {w}(x, y=1):\n    return vv(x=x)\n"
        strict = f"def {w}(x, y=1):\n    return None\n"
        if "loose" in k:
            p.strictly_autonomous(island_name=self.isle, portal=P)("def vv(x):\n    return None\n")
            b = p.autonomous(island_name=self.isle, portal=P)(loose)
            if self.rng.random() < .5:
                b(x=1)
            b = w if k == "loose name" else b
        elif "namesake" in k:
            self.need("aa")
            if "elsewhere" in k:
                b = p.strictly_autonomous(island_name="elsewhere", portal=P)(self.guard_source("aa"))
            else:
                b = p.strictly_autonomous(island_name=self.isle, portal=self.portal("q"))(self.guard_source("aa"))
        elif "island" in k:
            b = p.strictly_autonomous(island_name="elsewhere", portal=P)(strict)
            if self.rng.random() < .5:
                b(x=1)
            b = w if "name" in k else b
        elif k == "other portal":
            Q = self.portal("q")
            b = p.strictly_autonomous(island_name=self.isle, portal=Q)(strict)
        elif k == "ordinary":
            b = p.ordinary(portal=P)(strict)
        else:
            b = {"unknown name": "unheard", "itself": name, "plain function": lambda x, y=1: None, "number": 3,
                 "None inside": None, "list inside": []}[k]
        gs = [self.need(g) for g in e["guards"]]
        gs.insert(self.rng.randint(0, len(gs)), b)
        if len(gs) == 1 and "inside" not in k and self.rng.random() < .5:
            gs = gs[0]
        source = f"def {name}(x, y='no y'):\n    return 1\n"
        try:
            p.pure(island_name=self.isle, guards=gs, portal=P)(source)
        except Exception:
            # the name is still free
            ok = p.pure(island_name=self.isle, portal=P)(source)(x=1) == 1
            return dict(accepted=False if ok else "refused, but defined")
        return dict(accepted=True)

    def do_Twin(self, e):
        self.count_ += 1
        name = f"t{self.count_}"
        mine = self.__dict__.copy()
        x = self.rng.choice([0, 1, 2])
        theirs = {}
        try:
            self.P = self.portal(name)
            self.fn, self.guards = {}, {}
            gs = self.guard_source
            self.guard_source = lambda g: gs(g, e["v"])
            for f, gg in (("hh", e["hg"]), ("kk", e["fg"])):
                self.define(f, gg)
            theirs = {f: str(self.fn[f].get_address(**self.arg(x))) for f in self.fn}
        finally:
            portals = self.portals
            self.__dict__.clear()
            self.__dict__.update(mine)
            self.portals = portals
        same = {f: str(self.fn[f].get_address(**self.arg(x))) == theirs[f] for f in theirs}
        return dict(samek=same["kk"], sameh=same["hh"])


def run(ctx):
    inv = dict(view="View", action_constraint="Emit", invariants=["TypeOK", "Pending"])
    c = dict(BadGuards=set(BAD))
    jobs = [lambda: ctx.tlc("Guards", constants=dict(Order=["aa", "zz"], Args={0, 1}, MaxSteps=3, BadGuards={"itself"}),
                            next="NextAll", properties=["Guarded", "Truthful"], **inv)]
    jobs += [lambda: ctx.tlc("Guards", constants=dict(c, Order=["aa", "zz"], Args={0, 1}, MaxSteps=4), next="NextBad", **inv)]
    jobs += [lambda k=k: ctx.tlc("Guards", constants=dict(c, Order=k, Args={0, 1, 2}, MaxSteps=12),
                                 simulate=ctx.pick(100, 2500), depth=14, seed=ctx.seed * 10 + len(k), **inv)
             for k in (["aa", "zz"], ["aa", "mm", "zz"])]
    small, bad, *sims = ctx.parallel(jobs)
    n = 0
    for label, bs in (("all small", ctx.some(tla.Graph(small).cover(ctx.rng, 40), ctx.pick(100, 20000))),
                      ("not guards", ctx.some(tla.Graph(bad).cover(ctx.rng, 40), ctx.pick(60, 20000))),
                      ("simulated", sum((tla.split_simulation(r.lines) for r in sims), []))):
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
        ctx.replay(bs, Guards, label=label, chunk=4, timeout=200)
