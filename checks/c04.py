"""C04: events are recorded in every entered portal, completely."""
from vf import tla
from .c03 import STORES
from .logging_driver import LoggingDriver

ARGS = [frozenset(x) for x in (
    [], ["k"], ["*"], ["k", "*"], ["execution_environment_summary"], ["message_list"],
    ["message_list", "*"], ["execution_environment_summary", "message_list", "*"],
    ["args", "full_path", "path", "*"])]


def run(ctx):
    base = dict(StoreOf=STORES[0], Portals={"a", "b"}, MaxExc=0)
    props = dict(invariants=["OncePerPlace"], properties=["NothingLost"])
    c = dict(base, Kinds={"pure"}, MaxDepth=2, MaxEvents=2, EventNames={"", "e"},
             ArgSets={frozenset()})
    res = ctx.tlc("Logging", constants=c, next="NextLog", view="View", action_constraint="Emit", **props)
    g = tla.Graph(res)
    ctx.replay(ctx.some(g.cover(ctx.rng, 60), ctx.pick(600, 20000)), LoggingDriver, label="events and portals")
    c = dict(base, Kinds={"pure", "ordinary", "autonomous"}, MaxDepth=4, MaxEvents=12,
             EventNames={"", "e", "f"}, ArgSets=set(ARGS))
    runs = ctx.parallel([lambda st=st, k=k: ctx.tlc(
        "Logging", constants=dict(c, StoreOf=st, Portals=set(st)), next="NextLog", view="View",
        action_constraint="Emit", seed=ctx.seed * 10 + k,
        simulate=ctx.pick((180, 50, 50)[k], 2000), depth=30) for k, st in enumerate(STORES)])
    for st, res in zip(STORES, runs):
        bs = tla.split_simulation(res.lines)
        for b in bs:
            b["init"] = dict(b["init"], stores=st)
        ctx.replay(bs, LoggingDriver, label="events and arguments")
