"""What drivers of the specifications of pure functions share: portals over disks in
memory, sessions, functions, and ways to look at the storage from outside."""
import random

from vf import env, probe
from vf.simdict import SimDict


class World:
    T0 = 1_800_000_000.0

    def __init__(self, n):
        import pythagoras as p
        self.p = p
        self.rng = random.Random(n)
        self.backend = SimDict.reset()
        self.portals = {}
        env.clock.start(self.T0)

    def portal(self, name, disk=None, cls=None, **kw):
        self.portals[name] = (cls or self.p.PureCodePortal)(SimDict(disk or name), **kw)
        return self.portals[name]

    def forget(self):
        """The end of a session, as far as this process can end one."""
        from pythagoras._010_basic_portals.foundation import BasicPortal
        BasicPortal._clear_all()
        self.portals = {}

    def stack(self):
        from pythagoras._010_basic_portals.foundation import BasicPortal
        names = {id(v): k for k, v in self.portals.items()}
        return [names.get(id(x), "another") for x in BasicPortal.entered_portals_stack]

    def count(self, disk, part, marker=""):
        return sum(1 for f in self.backend.blobs
                   if f.startswith(f"{disk}/{part}/") and marker in f)
