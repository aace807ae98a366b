"""Steps the real portal classes through behaviours of PortalStack.tla."""
import copy
import os
import pickle

from vf import env
from vf.simdict import SimDict

KINDS = {"a": 3, "b": 2, "c": 1, "d": 3, "default": 3}   # portal -> depth in the class hierarchy


def classes():
    import pythagoras as pth
    from pythagoras._010_basic_portals.foundation import BasicPortal
    return {1: pth.LoggingPortal, 2: pth.DataPortal, 3: pth.PureCodePortal}


_aware = None


def aware_class():
    global _aware
    if _aware is None:
        from pythagoras import PortalAwareClass

        class Thing(PortalAwareClass):
            def __init__(self, tag, portal=None):
                super().__init__(portal=portal)
                self.tag = tag

            def __getstate__(self):
                return dict(tag=self.tag)

            def __setstate__(self, state):
                self.tag = state["tag"]
                self._portal = None
                self.capture_portal()
        Thing.__qualname__ = "Thing"
        Thing.__module__ = __name__
        globals()["Thing"] = Thing
        _aware = Thing
    return _aware


class PortalDriver:
    kinds, shared = KINDS, False

    def __init__(self, init, via_with=False):
        from pythagoras._010_basic_portals.foundation import BasicPortal
        SimDict.reset()
        self.B = BasicPortal
        self.cls = classes()
        self.portals, self.things, self.n = {}, {}, 0
        self.launched = 0
        env.process_context.factory = lambda method: self

    def Process(self, **kw):     # background workers are not what is checked here
        self.launched += 1
        return self

    def start(self):
        pass

    def name(self, p):
        if p is None:
            return "none"
        for k, v in self.portals.items():
            if v is p:
                return k
        if type(p).__name__ == "DefaultLocalPortal" and "default" not in self.portals:
            self.portals["default"] = p
            return "default"
        return "unknown:" + type(p).__name__

    def typed(self, k):
        try:
            return self.name(self.cls[k].get_most_recently_entered_portal())
        except AssertionError:
            return "error"

    def obs(self):
        B = self.B
        return dict(
            current=self.name(B.get_most_recently_entered_portal()),
            entered_s=sorted(self.name(p) for p in B.get_entered_portals()),
            noncurrent_s=sorted(self.name(p) for p in B.get_noncurrent_portals()),
            newest=self.name(B.get_most_recently_added_portal()),
            typed=[self.typed(k) for k in (1, 2, 3)])

    def step(self, e):
        self.n += 1
        x = getattr(self, "do_" + e["a"])(e)
        return dict(raised=False) | self.obs() | (x or {})

    def do_Create(self, e):
        p = e["p"]
        self.portals[p] = self.cls[self.kinds[p]](SimDict("sim/" + ("all" if self.shared else p)))

    def do_Enter(self, e):
        p = self.portals[e["p"]]
        assert p.__enter__() is p

    def do_Exit(self, e):
        p = self.portals[e["p"]]
        if e["how"] == "normal":
            r = p.__exit__(None, None, None)
        else:
            try:
                raise ValueError("boom")
            except ValueError as x:
                r = p.__exit__(type(x), x, x.__traceback__)
        assert not r, "the block swallows exceptions"

    def do_BadExit(self, e):
        try:
            self.portals[e["p"]].__exit__(None, None, None)
        except AssertionError:
            return dict(raised=True)

    def do_ExitAll(self, e):
        self.B.__exit_all__()

    def do_AskDefault(self, e):
        import pythagoras as pth
        p = pth.DefaultLocalPortal()
        return dict(best=self.name(p))

    def do_ClearAll(self, e):
        self.B._clear_all()
        self.portals, self.things = {}, {}

    def do_New(self, e):
        kw = {} if e["p"] == "none" else dict(portal=self.portals[e["p"]])
        self.things[e["x"]] = aware_class()(e["x"], **kw)
        return dict(uses=self.name(self.things[e["x"]].portal))

    def _restore(self, e):
        t = self.things[e["x"]]
        t2 = copy.copy(t) if self.n % 2 else pickle.loads(pickle.dumps(t))
        assert t2.tag == t.tag and t2 is not t
        self.things[e["x"]] = t2

    def do_Restore(self, e):
        self._restore(e)
        return dict(uses=self.name(self.things[e["x"]].portal))

    def do_RestoreOutside(self, e):
        self._restore(e)

    def do_Use(self, e):
        return dict(uses=self.name(self.things[e["x"]].portal))

    def do_Ask(self, e):
        s = None if e["p"] == "none" else self.portals[e["p"]]
        got = {self.name(c.get_best_portal_to_use(s)) for c in self.cls.values()}
        return dict(best=got.pop() if len(got) == 1 else sorted(got))

    def do_PicklePortal(self, e):
        try:
            pickle.dumps(self.portals[e["p"]])
        except Exception:
            return dict(raised=True)


class SharedStorage(PortalDriver):
    """Portals that are different, although they are alike and share their storage."""
    kinds, shared = {p: 3 for p in KINDS}, True
