"""Steps real portals and decorated functions through behaviours of Logging.tla."""
import os
import pwd
import random
import sys
import tempfile
import time

from vf import env, probe
from vf.check import Mismatch
from vf.simdict import SimDict

SRC = """def f_{kind}{rest}(n):
    import vprobe
    return vprobe.body(n)
"""
VALUES = dict(k=1, message_list="text", execution_environment_summary=None, args=[2, 3],
              full_path={"a": 1}, path="p")
POSITIONAL = ("first", 2)


class Custom(Exception):
    pass


class Careless(RuntimeError):
    """An exception that says little about itself."""
    __slots__ = ()

    def __eq__(self, other):
        return isinstance(other, Careless)
    __hash__ = None

    def __bool__(self):
        return False


class Größe(ValueError):
    pass


Endless = type("Endless" + "s" * 300, (Exception,), dict(__module__=__name__))
globals()[Endless.__name__] = Endless


NOTES = ["a note", "logged elsewhere", "suppressed", "", "two\nlines", "__suppress_logging", "suppress_logging__",
         "not __suppress_logging__", "__suppress_logging__ was not here", "__SUPPRESS_LOGGING__"]


class LoggingDriver:
    def __init__(self, init):
        self.rng, self.notes = random.Random(init.get("n", 0)), {}
        self.hook_calls = []
        sys.excepthook = sys.__excepthook__ = lambda *a: self.hook_calls.append(a)
        import pythagoras as pth
        self.pth = pth
        SimDict.reset()
        stores = init.get("stores") or dict(a="a", b="b")
        self.portals = {p: pth.PureCodePortal(SimDict("sim/" + d)) for p, d in stores.items()}
        self.stores = {d: [self.portals[p] for p in stores if stores[p] == d]
                       for d in sorted(set(stores.values()))}
        self.looks = 0
        self.fns, self.exc, self.flight, self.n_calls = {}, {}, 0, 0
        self.seen, self.events = {}, {}
        self.blobs = {}
        self.last_log = None
        probe.install(body=self.body)
        self.hook = sys.excepthook

    def fn(self, kind, p):
        if (kind, p) not in self.fns:
            long = 70 if kind == "pure" else 150     # addresses limit the names of pure functions
            rest, where = self.rng.choice(["", "", "_" + "y" * long]), {}
            if kind == "ordinary":
                rest = self.rng.choice([rest, "_größe", "_" + "y" * 300])
            elif self.rng.random() < .2:
                where["island_name"] = "island_" + "z" * self.rng.choice([1, long])
            self.fns[kind, p] = getattr(self.pth, kind)(portal=self.portals[p], **where)(
                SRC.format(kind=kind, rest=rest))
        return self.fns[kind, p]

    def body(self, n):
        self.loop()
        return ["result", n]

    # ------------------------------------------------------------ observation
    def obs(self):
        blobs = SimDict.backend.blobs
        for path, b in self.blobs.items():
            if path not in blobs or blobs[path][0] != b:
                self.feed.fail("a record was removed or overwritten: " + path)
        recs = []
        self.looks += 1
        for p, same in self.stores.items():
            portal = same[self.looks % len(same)]
            for key in portal.crash_history:
                k = (p,) + tuple(key)
                if k not in self.seen:
                    self.seen[k] = self.crash(p, key, portal.crash_history[key])
                recs.append(self.seen[k])
            for key in portal.event_log:
                k = (p,) + tuple(key)
                if k not in self.events:
                    self.events[k] = self.event(p, key, portal.event_log[key])
        self.blobs = {path: b[0] for path, b in blobs.items()
                      if "/crash_history/" in path or "/event_log/" in path}
        cur = self.pth.BasicPortal.get_most_recently_entered_portal()
        return dict(recs_s=recs, log_s=list(self.events.values()), flight=self.flight,
                    current="none" if cur is None else
                    [p for p in self.portals if self.portals[p] is cur][0])

    def crash(self, p, key, value):
        tb = [l for l in value["exception_traceback"] if l.strip()]
        texts = {f"{type(e).__name__}: boom-{x}": x for x, e in self.exc.items()}
        # causes and contexts come first, notes last
        for line in reversed([l.strip() for t in tb for l in t.split("\n")]):
            x = texts.get(line.rsplit(".", 1)[-1])
            if x is not None:
                notes = getattr(self.exc[x], "__notes__", [])[:len(self.notes[x])]
                if list(notes) != self.notes[x]:
                    self.feed.fail("the notes of the exception changed", repr(notes))
                break
        else:
            self.feed.fail("a crash record of an unknown exception", tb)
        place = key[0]
        at = [k for k in ("ordinary", "autonomous", "pure") if place.startswith("f_" + k)]
        return dict(x=x, p=p, at=at[0] if at else "all" if len(key) == 3 else place)

    def event(self, p, key, value):
        """The record of the event just logged."""
        if self.last_log is None:
            self.feed.fail("an event record out of nowhere", repr(key))
        e, kwargs, args = self.last_log
        rest = dict(value)
        for k, v in kwargs.items():
            if k not in rest or rest.pop(k) != v:
                self.feed.fail(f"the record of the event lacks argument {k}={v!r}", repr(value))
        if args:
            found = [k for k, v in rest.items() if isinstance(v, (list, tuple))
                     and list(v) == list(args)]
            if len(found) != 1:
                self.feed.fail(f"the record of the event lacks {args!r}", repr(value))
            del rest[found[0]]
        if not any(isinstance(v, dict) and "hostname" in v for v in rest.values()):
            self.feed.fail("the record does not describe the environment", repr(value))
        if e["id"] and key[-1] != e["id"]:
            self.feed.fail(f"the event is recorded under {key[-1]!r}")
        return dict(p=p, id=e["id"], n=e["n"], fields=len(value))

    # ------------------------------------------------------------ execution
    def done(self):
        self.feed.done(self.obs())

    def run(self, feed):
        self.feed = feed
        while True:
            try:
                self.loop()
            except Mismatch:
                raise
            except BaseException as x:
                self.check(x)
                feed.next("Hook")
                n = len(self.hook_calls)
                try:
                    sys.excepthook(type(x), x, x.__traceback__)
                except Mismatch:
                    raise
                except BaseException as y:
                    feed.fail(f"the exception hook failed with {y!r}")
                self.flight = 0
                if len(self.hook_calls) == n or self.hook_calls[-1][1] is not x:
                    feed.fail("the uncaught exception is not reported")
                self.done()

    def check(self, x):
        if x is not self.exc.get(self.flight):
            self.feed.fail(f"exception {self.flight} arrives as {x!r}")

    def framed(self, f):
        try:
            r = f()
        except Mismatch:
            raise
        except BaseException as x:
            self.check(x)
            self.feed.next("Unwind")
            self.done()
            raise
        if self.flight:
            self.feed.fail("an exception was swallowed")
        self.done()
        return r

    def loop(self):
        while True:
            e = self.feed.next()
            a = e["a"]
            if a == "Return":
                return
            getattr(self, "do_" + a)(e)

    def do_Open(self, e):
        self.portals[e["p"]].__enter__()
        self.done()

    def do_Block(self, e):
        def f():
            with self.portals[e["p"]]:
                self.done()
                self.loop()
        self.framed(f)

    def do_Call(self, e):
        def f():
            self.n_calls += 1
            n = self.n_calls
            fn = self.fn(e["kind"], e["p"])
            self.entering = True
            r = fn(n=n)
            if r != ["result", n]:
                self.feed.fail(f"the call returned {r!r}")
        body = self.body

        def first(n):
            probe.install(body=body)
            self.done()
            return body(n)
        probe.install(body=first)
        self.framed(f)

    def do_Try(self, e):
        try:
            self.done()
            self.loop()
        except Mismatch:
            raise
        except BaseException as x:
            self.check(x)
            self.feed.next("Catch")
            self.flight = 0
            self.done()
            self.framed(self.loop)
        else:
            self.done()

    def surroundings(self):
        """What a program's body may do to its process, or the process may lack."""
        r = self.rng.random()
        if r < .06:
            gone = tempfile.mkdtemp()
            os.chdir(gone)
            os.rmdir(gone)
        elif r < .09:
            def strftime(form, *a, real=time.strftime):
                return real(form.replace("%b", "mär"), *a)
            time.strftime = strftime
        elif r < .13:
            def unknown(uid):
                raise KeyError(f"getpwuid(): uid not found: {uid}")
            pwd.getpwuid = unknown
            for name in ("LOGNAME", "USER", "LNAME", "USERNAME"):
                os.environ.pop(name, None)
        elif r < .2:
            os.chdir(env.SCRATCH)

    def do_Raise(self, e):
        self.surroundings()
        x = e["x"]
        msg = f"boom-{x}"
        r = self.rng
        y = self.exc[x] = r.choice([ValueError, Custom, KeyboardInterrupt, StopIteration, Careless,
                                    AssertionError, TimeoutError, Größe, Endless])(msg)
        self.notes[x] = r.choice([[], [], [], [r.choice(NOTES)], ["a note", r.choice(NOTES)]])
        for note in self.notes[x]:
            y.add_note(note)
        if not self.notes[x] and r.random() < .2:
            y.__notes__ = []
        if r.random() < .2:
            y.__cause__ = r.choice([OSError("the cause")] + list(self.exc.values())[:-1])
        self.do_Again(e)

    def do_Again(self, e):
        self.flight = e["x"]
        self.done()
        raise self.exc[e["x"]]

    def do_Log(self, e):
        self.surroundings()
        kwargs = {k: VALUES[k] for k in e["args"] if k != "*"}
        args = POSITIONAL if "*" in e["args"] else ()
        if e["id"]:
            kwargs_id = dict(event_id=e["id"])
        else:
            kwargs_id = {}
        self.last_log = e, kwargs, args
        from pythagoras._020_logging_portals.logging_portals import log_event
        refused = False
        try:
            log_event(*args, **kwargs_id, **kwargs)
        except Mismatch:
            raise
        except BaseException as x:
            if not e["o"]["refused"]:
                self.feed.fail(f"logging an event failed: {x!r}")
            refused = True
        o = self.obs()
        self.last_log = None
        self.feed.done(o | dict(refused=refused))
