"""C14: addresses stand for calls."""
from vf import tla
from .identity_driver import Identity

BASE = dict(Order=["aa", "bb", "cc"], GOrder=["kk", "mm"], Islands={"i1", "i2"}, Portals={"p", "q"},
            Args={1, 2, 3}, MaxD=2, MaxSteps=45, PureOnly=False, Many=60)
INV = dict(view="View", action_constraint="Emit", invariants=["OnePerCall", "Same"], properties=["Stable"])


def behaviours(ctx, sims, small=None):
    jobs = [lambda c=c, k=k, n=n: ctx.tlc("CallIdentity", constants=dict(BASE, **c), init="InitR", next="NextSim",
                                          simulate=n, depth=c.get("MaxSteps", BASE["MaxSteps"]) + 2, seed=ctx.seed * 10 + k, **INV)
            for k, (c, n) in enumerate(sims)]
    if small:
        jobs.append(lambda: ctx.tlc("CallIdentity", constants=dict(BASE, **small), init="InitA", next="Next", **INV))
    rs = ctx.parallel(jobs)
    out = []
    for (c, n), r in zip(sims, rs):
        out.append((f"simulated {c}", tla.split_simulation(r.lines)))
    if small:
        out.append(("small", ctx.some(tla.Graph(rs[-1]).cover(ctx.rng, 40), ctx.pick(100, 20000))))
    return out


def replay(ctx, groups):
    n = 0
    for label, bs in groups:
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
        ctx.replay(bs, Identity, label=label, chunk=4, timeout=200)


def run(ctx):
    replay(ctx, behaviours(ctx, [
        (dict(Islands={"i1"}, Portals={"p"}, Args={1, 2}), ctx.pick(100, 3000)),
        (dict(), ctx.pick(60, 2000))]))
