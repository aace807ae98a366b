"""C17: each run of a pure function leaves one complete, separate record."""
from .c13 import BASE, WIDE, replay


def run(ctx):
    replay(ctx, [
        ("one portal", dict(BASE, MaxMarks=1, MaxSessions=0), ctx.pick(250, 10 ** 6), None),
        ("nested runs", dict(WIDE, Portals={"p"}, DiskOf={"p": "d"}, MaxMarks=12, MaxExc=2,
                             MaxSessions=1), 10 ** 6, ctx.pick(120, 4000)),
        ("nested runs in several portals", dict(WIDE, MaxMarks=12), 10 ** 6, ctx.pick(80, 3000)),
        ("nested runs, checks", dict(WIDE, Portals={"p"}, DiskOf={"p": "d"}, MaxMarks=8,
                                     MaxSessions=1, Always=True, Drift=True),
         10 ** 6, ctx.pick(80, 3000))])
