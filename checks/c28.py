"""C28: connecting to portals from the top level."""
import os
import shutil

from vf import env, probe, tla
from vf.simdict import SimDict
from .world import World

SOURCE = "def f(x):\n    import vprobe\n    return vprobe.body(x)\n"


class Connecting(World):
    def __init__(self, init):
        super().__init__(init["n"])
        self.forget()
        # a home of this process alone: others replay at the same time
        os.environ["HOME"] = self.home = os.path.join(env.SCRATCH, f"home{os.getpid()}")
        shutil.rmtree(self.home, ignore_errors=True)
        os.makedirs(self.home)
        self.launches, self.ran, self.f = [], 0, None
        env.process_context.factory = lambda method: self
        probe.install(body=self.body)

    def body(self, x):
        self.ran += 1
        return x

    def Process(self, target=None, args=(), kwargs=None, **kw):
        self.launches.append(dict(kwargs or {}))
        return self

    def start(self):
        pass

    @property
    def known(self):
        from pythagoras._010_basic_portals.foundation import BasicPortal
        return list(BasicPortal.all_portals.values())

    def number(self, portal):
        return 0 if portal is None else [p is portal for p in self.known].index(True) + 1

    def row(self, df):
        c = {r["parameter"]: r["value"] for _, r in df.iterrows()}
        d = str(c["Base directory"])
        return dict(dir="home" if d.startswith(self.home) else d, n=int(c["Background workers"]),
                    results=int(c["Cached execution results"]), queue=int(c["Execution queue size"]))

    def kind(self, p):
        return {"DefaultLocalPortal": "default", "SwarmingPortal": "swarm"}.get(type(p).__name__, type(p).__name__)

    def records(self):
        found = {f.split("/")[0] for f in self.backend.blobs if "runtime_id" in f}
        if any("runtime_id" in f for _, _, fs in os.walk(self.home) for f in fs):
            found.add("home")
        return sorted(found)

    def step(self, e):
        self.launches, self.ran = [], 0
        api = self.p
        o = getattr(self, "do_" + e["a"])(e, api) or {}
        o["launched"] = len(self.launches)
        if "report" in o:
            o["report"] |= dict(kind=self.kind(self.known[-1] if e["a"] != "ConnectDefault" else
                                               next((p for p in self.known if self.kind(p) == "default"), None)))
        of = {str(k.get("runtime_id")) for k in self.launches}
        if self.launches and (len(of) != 1 or of != {self.known[-1].runtime_id}
                              or any(k["n_background_workers"] != 0 for k in self.launches)):
            o["launched"] = f"workers with {self.launches}"
        o["portals"] = [self.row(p.describe()) | dict(kind=self.kind(p)) for p in self.known]
        B = self.p.BasicPortal
        o["current"] = self.number(B.get_most_recently_entered_portal())
        o["newest"] = self.number(B.get_most_recently_added_portal())
        o["live"] = [p.parent_runtime_is_live() for p in self.known]
        o["recs_s"] = self.records()
        if len(self.known) > 1 and self.rng.random() < .8:
            whole = o["portals"]
        elif len(self.known) > 1:
            df = api.describe()
            whole = [self.row(df[df["portal"] == i].drop(columns=["portal"])) | dict(kind=self.kind(p))
                     for i, p in enumerate(self.known)]
        else:
            whole = [self.row(api.describe()) | dict(kind=self.kind(p)) for p in self.known]
        if whole != o["portals"]:
            o["portals"] = dict(each=o["portals"], all=whole)
        return o

    def where(self, d):
        return None if d == "home" else SimDict(d)

    def do_Initialize(self, e, api):
        d = self.where(e["d"])
        self.f = None
        return dict(report=self.row(api.initialize(self.p.BasicPortal.default_base_dir() if d is None else d)))

    def do_Connect(self, e, api):
        d, w = self.where(e["d"]), e["w"]
        r = self.rng.choice
        if d is None:
            df = r([lambda: api.connect_to_local_portal(n_background_workers=w),
                    lambda: api.connect_to_local_portal(None, w),
                    lambda: api.connect_to_local_portal(self.p.BasicPortal.default_base_dir(), w),
                    ] + [api.connect_to_local_portal] * (w == 3))()
        else:
            df = r([lambda: api.connect_to_local_portal(d, w),
                    lambda: api.connect_to_local_portal(root_dict=d, n_background_workers=w),
                    ] + [lambda: api.connect_to_local_portal(d)] * (w == 3))()
        return dict(report=self.row(df))

    def do_ConnectDefault(self, e, api):
        return dict(report=self.row(api.connect_to_default_portal()))

    def do_Enter(self, e, api):
        self.known[e["i"] - 1].__enter__()

    def do_Exit(self, e, api):
        assert not self.known[e["i"] - 1].__exit__(None, None, None)

    def do_Define(self, e, api):
        self.f = self.p.pure()(SOURCE)
        return dict(uses=self.number(self.f.portal))

    def do_Call(self, e, api):
        value = self.f(x=e["x"])
        return dict(value=value, ran=self.ran)

    def do_Ask(self, e, api):
        a = self.f.swarm(x=e["x"])
        return dict(ready=bool(a.ready))

    def do_End(self, e, api):
        kept = {}
        if e["how"] == "killed":
            kept = {f: b for f, b in self.backend.blobs.items() if "runtime_id" in f}
            files = [os.path.join(d, f) for d, _, fs in os.walk(self.home) for f in fs if "runtime_id" in f]
            files = {f: open(f, "rb").read() for f in files}
        else:
            files = {}
        self.forget()
        self.f = None
        self.backend.blobs.update(kept)
        for f, b in files.items():
            with open(f, "wb") as out:
                out.write(b)


def run(ctx):
    base = dict(Dirs={"home", "d1", "d2"}, Workers={0, 2, 3}, Xs={1, 2}, MaxDepth=2, MaxSteps=99)
    inv = dict(invariants=["RecordsOwned", "OneDefault", "LastLive"], properties=["Kept"])
    g, sim = ctx.parallel([
        lambda: tla.Graph(ctx.tlc("Connecting", constants=base | dict(
            Dirs={"home", "d1"}, Xs={1}, Workers={0, 3}, MaxPortals=2, MaxDepth=ctx.pick(1, 2)), view="View", action_constraint="Emit", **inv)),
        lambda: ctx.tlc("Connecting", constants=base | dict(MaxPortals=4), next="NextSim", view="View",
                        action_constraint="Emit", simulate=ctx.pick(150, 3000), depth=35, **inv)])
    ctx.replay(ctx.some(g.cover(ctx.rng, 30), ctx.pick(900, 9000)), Connecting, label="every step")
    ctx.replay(tla.split_simulation(sim.lines), Connecting, label="long programs")
