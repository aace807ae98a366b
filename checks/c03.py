"""C03: exceptions are recorded once in every entered portal, and propagate."""
from vf import tla
from .logging_driver import LoggingDriver

PROPS = dict(invariants=["OncePerPlace", "OnlyLogged", "SamePlaces"],
             properties=["NothingLost", "LeavingRecords", "NormalIsQuiet"])
STORES = [dict(a="a", b="b"), dict(a="a", b="a"), dict(a="a", b="b", c="a")]
BASE = dict(StoreOf=STORES[0], MaxEvents=0, EventNames={""}, ArgSets={frozenset()})


def number(ctx, bs):
    """Each behaviour with a number, for choices the specification leaves open."""
    for k, b in enumerate(bs):
        b["init"] = dict(b["init"], n=ctx.seed * 10 ** 6 + k)
    return bs


def run(ctx):
    c = dict(BASE, Portals={"a", "b"}, Kinds={"ordinary", "pure"}, MaxDepth=3, MaxExc=1)
    res = ctx.tlc("Logging", constants=c, next="NextExc", view="View", action_constraint="Emit", **PROPS)
    g = tla.Graph(res)
    ctx.replay(number(ctx, ctx.some(g.cover(ctx.rng, 60), ctx.pick(900, 20000))), LoggingDriver, label="one exception")
    runs = ctx.parallel([lambda st=st, k=k: ctx.tlc(
        "Logging", constants=dict(BASE, StoreOf=st, Portals=set(st),
                                  Kinds={"ordinary", "pure", "autonomous"}, MaxDepth=6, MaxExc=4),
        next="NextExc", view="View", action_constraint="Emit", seed=ctx.seed * 10 + k,
        simulate=ctx.pick((300, 80, 80)[k], 2000), depth=40) for k, st in enumerate(STORES)])
    for st, res in zip(STORES, runs):
        bs = tla.split_simulation(res.lines)
        for b in bs:
            b["init"] = dict(b["init"], stores=st)
        ctx.replay(number(ctx, bs), LoggingDriver, label="several exceptions")
    if ctx.thorough:
        c = dict(BASE, Portals={"a", "b"}, Kinds={"ordinary", "pure"}, MaxDepth=3, MaxExc=2)
        ctx.tlc("Logging", constants=c, next="NextExc", view="View", workers=8, **PROPS)
