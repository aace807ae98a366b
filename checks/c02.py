"""C02: which portal an operation or an object uses when none is named."""
from vf import tla
from .portal_driver import KINDS, PortalDriver, SharedStorage


def run(ctx):
    for label, driver, ps in (("portal-aware objects", PortalDriver, ["a", "default"] + ctx.pick([], ["b"])),
                              ("objects of portals alike", SharedStorage, ctx.pick("ab", "abd"))):
        res = ctx.tlc("PortalStack", constants=dict(
            Portals=set(ps), Kind={p: driver.kinds[p] for p in ps}, MaxDepth=2,
            Objects=ctx.pick({"x"}, {"x", "y"})), next="NextAware", view="View",
            action_constraint="Emit", invariants=["StackIsHist", "OnlyCreatedEntered"], properties=["Sticky"])
        g = tla.Graph(res)
        ctx.replay(g.cover(ctx.rng, 40), driver, label=label)
        ctx.replay(g.walks(ctx.rng, ctx.pick(100, 1500), 80), driver, label=label + ", long runs")
