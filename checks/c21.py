"""C21: a result known to any portal is found, and brought into the current one."""
from .c13 import BASE, WIDE, replay

TWO = dict(Portals={"p", "q"}, DiskOf={"p": "d", "q": "e"})


def run(ctx):
    replay(ctx, [
        ("two portals", dict(BASE, **TWO, MaxExc=0, MaxRuns=2, MaxDepth=1, MaxSessions=2),
         ctx.pick(350, 10 ** 6), None),
        ("three portals, three stores",
         dict(WIDE, MaxExc=0, MaxMarks=0, MaxDepth=3, MaxSessions=6,
              DiskOf={"p": "d", "q": "e", "r": "f"}), 10 ** 6, ctx.pick(120, 4000)),
        ("three portals, two stores", dict(WIDE, MaxExc=1, MaxMarks=2, MaxSessions=6),
         10 ** 6, ctx.pick(80, 3000)),
        ("two portals, checks", dict(WIDE, **TWO, MaxMarks=0, MaxExc=1, MaxSessions=3,
                                     Always=True), 10 ** 6, ctx.pick(60, 2000))])
