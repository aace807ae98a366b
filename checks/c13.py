"""C13: a pure function runs at most once per arguments, and returns that result."""
from vf import tla
from .pure_driver import PureDriver

BASE = dict(Calls={"c1", "c2"}, Portals={"p"}, DiskOf={"p": "d"}, Always=False, Drift=False,
            MaxDepth=3, MaxRuns=3, MaxExc=1, MaxMarks=0, MaxSessions=1)
ON = dict(view="View", action_constraint="Emit",
          invariants=["OnceOnly", "Genuine", "OwnRecords", "TypeOK"])
PROPS = ["Stays", "KeepsRequest"]
WIDE = dict(BASE, Calls={"c1", "c2", "c3"}, Portals={"p", "q", "r"},
            DiskOf={"p": "d", "q": "e", "r": "e"}, MaxExc=3, MaxMarks=6, MaxRuns=9, MaxDepth=5,
            MaxSessions=3)


def behaviours(ctx, configs):
    """configs: (label, constants, how many to replay, None or the number to simulate)"""
    def job(k, c, sim):
        if sim is None:
            return lambda: ctx.tlc("PureCalls", constants=c, properties=PROPS, **ON)
        return lambda: ctx.tlc("PureCalls", constants=c, simulate=sim, depth=60,
                               seed=ctx.seed * 100 + k, **ON)
    results = ctx.parallel([job(k, c, sim) for k, (_, c, _, sim) in enumerate(configs)])
    n = 0
    for (label, c, many, sim), r in zip(configs, results):
        bs = (tla.split_simulation(r.lines) if sim is not None
              else tla.Graph(r).cover(ctx.rng, 40))
        bs = ctx.some(bs, many)
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed, disk=c["DiskOf"], always=c["Always"],
                             sometimes="half" in label)
        yield label, bs


def replay(ctx, configs):
    for label, bs in behaviours(ctx, configs):
        ctx.replay(bs, PureDriver, label=label, chunk=4, timeout=240)


def run(ctx):
    replay(ctx, [
        ("one portal", BASE, ctx.pick(250, 10 ** 6), None),
        ("checks", dict(BASE, Always=True, Drift=True, Calls={"c1"}), ctx.pick(250, 10 ** 6), None),
        ("several calls", dict(WIDE, Portals={"p", "q"}, DiskOf={"p": "d", "q": "d"}, MaxMarks=0),
         10 ** 6, ctx.pick(120, 4000)),
        ("several calls, checks", dict(WIDE, Portals={"p"}, DiskOf={"p": "d"}, MaxMarks=0,
                                       Always=True, Drift=True), 10 ** 6, ctx.pick(80, 3000)),
        ("several calls, checks half of the time", dict(
            WIDE, Calls={"c1", "c2"}, Portals={"p"}, DiskOf={"p": "d"}, MaxMarks=0, MaxRuns=12,
            Always=True, Drift=True), 10 ** 6, ctx.pick(60, 2000))])
