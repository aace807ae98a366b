"""C27: settings of portals, and their reports."""
import os
import pickle
import tempfile

from vf import env, probe, tla
from vf.simdict import SimDict
from .world import World

SOURCE = "def %s(x):\n    import vprobe\n    return vprobe.body(x)\n"
ISLES = ["", "isle", "Samos", "isle-2_b"]


class Wrong(Exception):
    pass


def in_order(x):
    """Lists under keys that end with _s sorted."""
    if isinstance(x, dict):
        return {k: sorted(map(in_order, v), key=str) if k.endswith("_s") and isinstance(v, list) else in_order(v)
                for k, v in sorted(x.items())}
    return [in_order(v) for v in x] if isinstance(x, list) else x


class Reports(World):
    def __init__(self, init):
        super().__init__(init["n"])
        self.forget()
        env.virtual_dates()
        self.real = init["n"] % 8 == 0        # real files now and then
        self.dir = tempfile.mkdtemp(dir=env.SCRATCH) if self.real else None
        self.ps = []
        self.fns = []
        self.launches = []
        env.process_context.factory = lambda method: self
        probe.install(body=self.body)

    def body(self, x):
        if x[1] == 0:
            raise Wrong("so")
        return x

    # what starts background workers
    def Process(self, target=None, args=(), kwargs=None, **kw):
        self.launches.append(dict(kwargs or {}))
        return self

    def start(self):
        pass

    def join(self, *a):
        pass

    def root(self, d):
        r = self.rng
        if not self.real:
            return SimDict(f"disk{d}", **r.choice([{}, dict(digest_len=0), dict(file_type="json"), dict(digest_len=3)]))
        path = f"{self.dir}/disk{d}"
        from persidict import FileDirDict
        return r.choice([lambda: path, lambda: FileDirDict(path), lambda: FileDirDict(base_dir=path, file_type="json"),
                         lambda: __import__("pathlib").Path(path)])()

    def stored(self, d, part, ext=""):
        if not self.real:
            return sum(1 for f in self.backend.blobs if f.startswith(f"disk{d}/{part}/") and f.endswith(ext))
        return sum(1 for _, _, fs in os.walk(f"{self.dir}/disk{d}/{part}") for f in fs if f.endswith(ext))

    def cls(self, c):
        p = self.p
        if c in ("Logging", "Data", "Basic"):
            return getattr(p, c + "Portal")
        return p.SwarmingPortal if c == "Swarming" else getattr(p, c + "CodePortal")

    def contents(self):
        out = {}
        if not self.real:
            for f in self.backend.blobs:
                out.setdefault(f.split("/")[0], set()).add(f)
        for d, _, fs in os.walk(self.dir) if self.real else ():
            out.setdefault(os.path.relpath(d, self.dir).split("/")[0], set()).update(os.path.join(d, f) for f in fs)
        return out

    def step(self, e):
        before = self.contents()
        o = self.step_(e)
        after = self.contents()
        mine = {f"disk{self.disks[e[k] - 1]}" for k in "ij" if k in e} | ({f"disk{e['s']['disk']}"} if "s" in e else set())
        if e["a"] == "Session":
            mine = set(after) | set(before)
        o["others"] = sorted(d for d in set(after) | set(before) if d not in mine and before.get(d, set()) != after.get(d, set()))
        return o

    def step_(self, e):
        self.launches = []
        entered = None
        if self.ps and e["a"] in ("Store", "Call", "Swarm", "Define") and self.rng.random() < .3:
            entered = self.rng.choice(self.ps)
            entered.__enter__()
        try:
            o = getattr(self, "do_" + e["a"])(e) or {}
        finally:
            if entered is not None:
                entered.__exit__(None, None, None)
        if "launched" in e["o"]:
            o["launched"] = len(self.launches)
            for k in self.launches:
                mine = self.ps[-1].__get_portable_params__()
                if k != {**mine, "n_background_workers": 0}:
                    o["launched"] = f"a worker with {k}, not {mine}"
        o["reps"] = [self.report(i) for i in range(len(self.ps))]
        alltogether = self.everything()
        if alltogether != o["reps"]:
            o["reps"] = dict(portal=o["reps"], all=alltogether)
        return o

    def read(self, i, df):
        lv = [c for c in df.columns if c not in ("type", "parameter", "value")]
        rows = [(r["parameter"], r["value"]) for _, r in df.iterrows()]
        cells = dict(rows)
        d = self.disks[i]
        out = dict(cls=self.classes[i], disk=d)
        base = f"{self.dir}/disk{d}" if self.real else f"disk{d}"
        if os.path.abspath(str(cells["Base directory"])) != os.path.abspath(base) or cells["Backend type"] != (
                "FileDirDict" if self.real else "SimDict"):
            out["disk"] = f"{cells['Base directory']}, {cells['Backend type']}"
        if lv:
            out["columns"] = lv
        for k, name in dict(total="Exceptions, total", today="Exceptions, today", p="Probability of checks",
                            n_isles="Islands", default="Default island", results="Cached execution results",
                            queue="Execution queue size", workers="Background workers").items():
            if name in cells:
                out[k] = cells[name] if isinstance(cells[name], str) else float(cells[name])
        if "p" in out:
            out["p"] *= 100
        if "Values, total" in cells and cells["Values, total"] != self.stored(d, "value_store", ".pkl"):
            out["values"] = f"{cells['Values, total']}, not {self.stored(d, 'value_store', '.pkl')}"
        if "All islands" in cells:
            out["isles_s"] = str(cells["All islands"]).split(", ")
            out["funs_s"] = []
            for k in dict.fromkeys(k for k, _ in rows if k.startswith("Functions in <")):
                vs = [v for name, v in rows if name == k]
                names = [x for v in vs if isinstance(v, str) for x in v.split(", ")]
                ns = [int(v) for v in vs if not isinstance(v, str)]
                out["funs_s"].append(dict(isle=k[14:-1], n=ns[0] if len(ns) == 1 else str(ns), names_s=names))
        return in_order(out)

    def report(self, i):
        return self.read(i, self.ps[i].describe())

    def everything(self):
        from pythagoras._110_top_level_API.top_level_API import describe
        if not self.ps:
            return []
        df = describe()
        if len(self.ps) == 1:
            return [self.read(0, df)]
        return [self.read(i, df[df["portal"] == i].drop(columns=["portal"])) for i in range(len(self.ps))]

    disks, classes = (), ()

    def add(self, portal, d, c):
        self.ps.append(portal)
        self.fns.append({})
        self.disks, self.classes = [*self.disks, d], [*self.classes, c]

    def do_New(self, e):
        s, kw = e["s"], {}
        if s["p"] != -1:
            kw["p_consistency_checks"] = s["p"] / 100
        if s["isle"]:
            kw["default_island_name"] = s["isle"]
        if s["cls"] == "Swarming":
            kw["n_background_workers"] = s["nw"]
            if s["rt"]:
                kw["runtime_id"] = s["rt"]
        portal = self.cls(s["cls"])(self.root(s["disk"]), **kw)
        self.add(portal, s["disk"], s["cls"])

    @staticmethod
    def settings(portal):
        p = dict(portal.get_params())
        root = p.pop("root_dict")
        return p, type(root).__name__, root.get_params()

    def do_Rebuild(self, e):
        import parameterizable
        old = self.ps[e["i"] - 1]
        how = self.rng.choice(["params", "portable", "pickled"])
        if how == "params":
            new = type(old)(**old.get_params())
        else:
            pp = old.__get_portable_params__()
            if how == "pickled":
                pp = pickle.loads(pickle.dumps(pp))
            new = parameterizable.get_object_from_portable_params(pp)
        self.add(new, self.disks[e["i"] - 1], self.classes[e["i"] - 1])
        a, b = self.settings(old), self.settings(new)
        same = type(new) is type(old) and a == b
        for name in ("p_consistency_checks", "default_island_name", "runtime_id", "n_background_workers"):
            same &= getattr(old, name, None) == getattr(new, name, None)
        for name in ("value_store", "execution_results", "execution_requests", "crash_history", "event_log"):
            if hasattr(old, name):
                same &= sorted(map(str, getattr(old, name))) == sorted(map(str, getattr(new, name)))
        return dict(alike=same or f"{a} but {b}")

    def do_Store(self, e):
        i = e["i"] - 1
        before = self.stored(self.disks[i], "value_store")
        v = ["value", e["v"]]
        with self.ps[i]:
            a = self.p.ValueAddr(v)
        assert a.get() == v
        return dict(more=self.stored(self.disks[i], "value_store") - before)

    def do_Define(self, e):
        i = e["i"] - 1
        P = self.ps[i]
        deco = self.p.autonomous if self.classes[i] == "Autonomous" else self.p.pure
        f = deco(island_name=e["isle"] or None, portal=P)(SOURCE % e["f"])
        self.fns[i][e["isle"] or P.default_island_name, e["f"]] = f

    def fn(self, e):
        return self.fns[e["i"] - 1][e["isle"], e["f"]]

    def do_Call(self, e):
        x = [self.disks[e["i"] - 1], e["x"]]
        return dict(value=self.fn(e)(x=x)[1])

    def do_Swarm(self, e):
        self.fn(e).swarm(x=[self.disks[e["i"] - 1], e["x"]])

    def do_Fail(self, e):
        try:
            with self.ps[e["i"] - 1]:
                with self.ps[e["j"] - 1]:
                    raise Wrong("so")
        except Wrong:
            pass

    def do_FailCall(self, e):
        try:
            self.fn(e)(x=[self.disks[e["i"] - 1], 0])
        except Wrong:
            pass

    def do_NextDay(self, e):
        env.clock.t += 86400

    def do_Session(self, e):
        self.forget()
        self.ps, self.fns, self.disks, self.classes = [], [], [], []


def fam(*sets):
    return {frozenset(s) for s in sets}


def run(ctx):
    inv = dict(view="View", action_constraint="Emit", invariants=["TypeOK"])
    one = [{x} for x in ("Basic", "Logging", "Data", "Ordinary", "Safe", "Autonomous", "Pure", "Swarming")]
    c = dict(Families=fam(*one, {"Pure", "Swarming"}), Disks={1, 2}, Isles=set(ISLES), Ps={-1, 0, 50, 100},
             Workers={0, 1, 3}, Runtimes={"", "r1"}, Xs={1, 2}, MaxPortals=4, MaxSteps=20)
    small = dict(c, Families=fam({"Data"}, {"Pure"}, {"Pure", "Swarming"}), Isles={""}, Ps={-1}, Workers={0}, Runtimes={""}, Xs={1},
                 MaxPortals=2, MaxSteps=4)
    settings = dict(c, Disks={1}, MaxPortals=2, MaxSteps=2, Families=fam(*one))
    jobs = [lambda: ctx.tlc("Reports", constants=small, next="NextAll", properties=["Isolated", "Rebuilt"], **inv),
            lambda: ctx.tlc("Reports", constants=settings, next="NextAll", **inv)]
    jobs += [lambda k=k: ctx.tlc("Reports", constants=c, simulate=ctx.pick(150, 3000), depth=22,
                                 seed=ctx.seed * 10 + k, **inv) for k in (1, 2)]
    small, settings, *sims = ctx.parallel(jobs)
    n = 0
    for label, bs in (("all small", ctx.some(tla.Graph(small).cover(ctx.rng, 40), ctx.pick(150, 20000))),
                      ("settings", ctx.some(tla.Graph(settings).cover(ctx.rng, 40), ctx.pick(200, 20000))),
                      ("simulated", sum((tla.split_simulation(r.lines) for r in sims), []))):
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
            for e in b["events"]:
                e["o"] = in_order(e["o"])
        ctx.replay(bs, Reports, label=label, chunk=4, timeout=200)
