"""C01: the stack of entered portals."""
from vf import tla
from .portal_driver import KINDS, PortalDriver, SharedStorage


def run(ctx):
    ps = ctx.pick("abc", "abcd")
    for label, driver in (("portals", PortalDriver), ("portals alike", SharedStorage)):
        res = ctx.tlc("PortalStack", constants=dict(
            Portals=set(ps), Kind={p: driver.kinds[p] for p in ps}, MaxDepth=ctx.pick(3, 4), Objects=set()),
            next="NextStack", view="View", action_constraint="Emit",
            invariants=["StackIsHist", "Compact", "OnlyCreatedEntered"])
        g = tla.Graph(res)
        ctx.replay(g.cover(ctx.rng, 30), driver, label=label)
        ctx.replay(g.walks(ctx.rng, ctx.pick(100, 1000), 60), driver, label=label + ", long runs")
