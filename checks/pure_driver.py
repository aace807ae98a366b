"""Steps real pure functions through behaviours of PureCalls.tla."""
import json
import logging
import os
import re
import sys

from vf import env, probe
from vf.check import Mismatch
from vf.pool import isolated, last_line
from .world import World

SRC = """def {me}(x):
    import vprobe
    return vprobe.body("{name}", x, dict(f={f}, g={g}), dict(f=lambda **k: {f}(**k), g=lambda **k: {g}(**k)))
"""
SRCS = dict(f=SRC, g=SRC, none="""def {me}():
    import vprobe
    return vprobe.body("{name}", "no argument", dict(f={f}, g={g}, none={none}), dict(f=lambda **k: {f}(**k), g=lambda **k: {g}(**k), none=lambda **k: {none}(**k)))
""", default="""def {me}(x="no argument"):
    import vprobe
    return vprobe.body("{name}", x, dict(f={f}, g={g}), dict(f=lambda **k: {f}(**k), g=lambda **k: {g}(**k)))
""", many="""def {me}(**x):
    import vprobe
    return vprobe.body("{name}", x, dict(f={f}, many={many}), dict(f=lambda **k: {f}(**k), many=lambda **k: {many}(**k)))
""")
# what the functions are called; the package itself uses some of these names
REAL = ["f", "g", "f", "g", "fib", "Any", "DataPortal", "get_hash_signature", "OrdinaryFn", "LoggingPortal", "sys", "F", "_f"]
PAIRS = [("f", 0), ("f", False), ("g", 0), ("g", False), ("f", None), ("f", ""), ("g", [1]),
         ("f", [1]), ("f", (1,)), ("f", {"a": 1}), ("g", "fn:f"), ("f", "fn:g"), ("f", {"x": []}),
         ("none", "no argument"), ("default", "no argument"), ("default", 0), ("many", {"a": 1, "x": [None]}), ("many", {})]
VALUES = [None, False, "", 0, [], {}, (1, [2]), "text", {"a": {1, 2}}, "fn:f", "fn:g", 1.5]
OTHER = "another value"


class Custom(Exception):
    pass


class PureDriver(World):
    """`params`: how portals are configured."""
    always = False

    def __init__(self, init):
        super().__init__(init["n"])
        self.exc, self.flight, self.nruns, self.nexc = {}, 0, 0, 0
        self.drift = False
        # how often addresses are made from text, in a session without the function
        self.by_text = self.rng.choice([.5, 1])
        probe.install(body=self.body)
        handler = logging.StreamHandler(sys.stderr)
        handler.setFormatter(logging.Formatter("%(message)s"))
        logging.getLogger().handlers[:] = [handler]
        disks = sorted(init["res"])
        self.calls = sorted(init["res"][disks[0]])
        self.disk = init["disk"]
        pairs = self.rng.sample(PAIRS, len(self.calls))
        self.call = dict(zip(self.calls, pairs))
        self.names = sorted({"f", "g", *(name for name, _ in pairs)})
        self.real = dict(zip(SRCS, self.rng.sample(sorted(set(REAL)), len(SRCS))))
        if self.rng.random() < .3:
            self.real = {n: n for n in SRCS}
        self.value = {c: self.rng.choice(VALUES) for c in self.calls}
        # checks that are due half of the time: repeat each call until one is
        self.sometimes = init.get("sometimes")
        self.p_checks = (.5 if self.sometimes else 1 if init["always"]
                         else self.rng.choice([0, None]))
        # addresses of all calls, found without touching the stores
        self.open_session({"scratch": "scratch"})
        self.text = {c: tuple(self.wrapper("scratch", c).get_address(**self.kw("scratch", c)))
                     for c in self.calls}
        self.forget()
        for k in [k for k in self.backend.blobs if k.startswith("scratch/")]:
            del self.backend.blobs[k]
        self.open_session({p: self.disk[p] for p in self.rng.sample(init["known"], len(init["known"]))})

    def open_session(self, disks):
        self.fns = {}
        for p, d in disks.items():
            self.portal(p, d, p_consistency_checks=self.p_checks)

    def define(self, p):
        if (p, "f") not in self.fns:
            for name in self.rng.sample(self.names, len(self.names)):
                self.fns[p, name] = self.p.pure(portal=self.portals[p])(self.src(name))

    def src(self, name):
        return SRCS[name].format(name=name, me=self.real[name], **self.real)

    def wrapper(self, p, c):
        self.define(p)
        if self.rng.random() < .2:       # one more wrapper of the same function
            name = self.call[c][0]
            how = self.rng.choice([self.src(name), self.fns[p, name]])
            return self.p.pure(portal=self.portals[p])(how)
        return self.fns[p, self.call[c][0]]

    def kw(self, p, c):
        """The arguments to call it with."""
        name, x = self.call[c]
        if name == "many":
            return dict(self.rng.sample(sorted(x.items()), len(x)))
        return {} if x == "no argument" else dict(x=self.special(p, x))

    def got(self, c, kw):
        """Whether these are the arguments of the call."""
        name, x = self.call[c]
        want = x if name == "many" else {} if x == "no argument" else dict(x=x)
        return set(kw) == set(want) and all(self.equal(want[k], kw[k]) for k in want)

    def special(self, p, v):
        if isinstance(v, str) and v.startswith("fn:"):
            self.define(p)
            return self.fns[p, v[3:]]
        return v

    def restored(self, p, c):
        """The address of a call, from its text."""
        with self.portals[p]:
            return self.p.PureFnExecutionResultAddr.from_strings(
                prefix=self.text[c][0], hash_signature=self.text[c][1], assert_readiness=False)

    def address(self, p, c):
        if self.rng.random() < self.by_text:
            return self.restored(p, c)
        return self.wrapper(p, c).get_address(**self.kw(p, c))

    def is_fn(self, r, name):
        return (isinstance(r, self.p.PureFn) and r.fn_name == self.real[name]
                and r.fn_source_code == self.source(name))

    def source(self, name):
        return self.p.ordinary()(self.src(name)).fn_source_code

    def equal(self, v, r):
        if isinstance(v, str) and v.startswith("fn:"):
            return self.is_fn(r, v[3:])
        return type(v) is type(r) and v == r

    def version(self, c, r):
        if self.equal(self.value[c], r):
            return 1
        if r == OTHER:
            return 2
        return repr(r)

    # ------------------------------------------------------------ observation
    def obs(self, **kw):
        return dict(kw, current=(self.stack() or ["none"])[-1], nruns=self.nruns, flight=self.flight)

    def context(self):
        from pythagoras._010_basic_portals.foundation import BasicPortal
        root = logging.getLogger()
        return ([id(x) for x in BasicPortal.entered_portals_stack], id(sys.stdout), id(sys.stderr),
                [(id(h), id(getattr(h, "stream", None))) for h in root.handlers],
                {k: len(f.call_stack) for k, f in self.fns.items()})

    # -------------------------------------------------------------- execution
    def run(self, feed):
        self.feed = feed
        while True:
            try:
                self.loop()
                feed.fail("the program ended")
            except Mismatch:
                raise
            except BaseException as x:
                self.check(x)
                feed.next("Over")
                self.flight = 0
                feed.done(self.obs())

    def check(self, x):
        if x is not self.exc.get(self.flight):
            self.feed.fail(f"exception {self.flight} arrives as {x!r}", __import__("traceback").format_exception(x))

    def loop(self):
        """Perform events until the body ends."""
        while True:
            e = self.feed.next()
            r = getattr(self, "do_" + e["a"])(e)
            if r is not None:
                return r

    def body(self, name, x, fns, calls=None):
        e = self.pending
        if e is None and self.aside is not None:
            self.aside["runs"] += 1
            v = self.aside["v"]
            return self.special(self.aside["p"], self.value[self.aside["c"]]) if v == 1 else OTHER
        if e is None:
            self.feed.fail(f"{name}({x!r}) runs, but should not")
        self.pending = None
        c = e["c"]
        if name != self.call[c][0] or not self.equal(self.call[c][1], x):
            self.feed.fail(f"{name}({x!r}) runs")
        self.nruns += 1
        self.island = fns
        self.at.append((e["p"], calls or fns if self.rng.random() < .5 else fns))
        if self.rng.random() < .1:       # it deletes its working directory
            os.rmdir(os.getcwd())
        self.feed.done(self.obs())
        try:
            v = self.loop()[1]["v"]
        finally:
            self.at.pop()
        return self.special(e["p"], self.value[c]) if v == 1 else OTHER

    pending = None
    aside = None
    at = []

    def still_sometimes(self, p, c, v):
        """Checks that are due half of the time still are: neither always nor never. Whatever
        these calls leave in the stores is taken out again."""
        blobs = dict(self.backend.blobs)
        self.aside = dict(p=p, c=c, v=v, runs=0)
        n = 36
        try:
            for _ in range(n):
                r = self.wrapper(p, c)(**self.kw(p, c))
                if self.version(c, r) != v:
                    self.feed.fail(f"the call returned {r!r}")
            if self.aside["runs"] in (0, n):
                self.feed.fail(f"checks are due half of the time, but {self.aside['runs']} of {n} were")
        finally:
            self.aside = None
            self.backend.blobs.clear()
            self.backend.blobs.update(blobs)

    def do_Return(self, e):
        return "return", e       # completed where the call returns

    def do_EndTry(self, e):
        return "endtry", e

    def do_Leave(self, e):
        return "leave", e

    def invoke(self, p, c):
        """Call it, in one of the ways there are."""
        r = self.rng.random()
        if r < .25 and self.at and self.at[-1][0] == p and self.call[c][0] in self.at[-1][1]:
            f = self.at[-1][1][self.call[c][0]]
            return f(**self.kw(p, c))
        if r < .5:
            return self.wrapper(p, c)(**self.kw(p, c))
        if r < .65:
            return self.wrapper(p, c).execute(**self.kw(p, c))
        if r < .8:
            a = self.wrapper(p, c).run(**self.kw(p, c))
            if tuple(a) != self.text[c]:
                self.feed.fail(f"run returns {a!r}")
            return a.get()
        with self.portals[p]:
            kw = {k: self.p.ValueAddr(v) for k, v in self.kw(p, c).items()}
        if r < .9:
            return self.wrapper(p, c)(**kw)
        return self.wrapper(p, c).get_address(**self.kw(p, c)).execute()

    def do_Cached(self, e):
        before, streams = self.context(), self.records_count(e["p"], e["c"])
        try:
            r = self.invoke(e["p"], e["c"])
        except Mismatch:
            raise
        except BaseException as x:
            self.feed.fail(f"a call whose result is known failed with {x!r}")
        self.unchanged(before)
        if self.records_count(e["p"], e["c"]) != streams:
            self.feed.fail("a call that does not run leaves a record")
        self.feed.done(self.obs(ret=self.version(e["c"], r)))

    def records_count(self, p, c):
        mark = f"/{self.text[c][1]}/"
        return sum(1 for f in self.backend.blobs
                   if f.startswith(f"{self.disk[p]}/run_history/") and mark in f)

    def unchanged(self, before):
        after = self.context()
        for what, a, b in zip(("the stack of entered portals", "standard output", "standard error",
                               "log handlers", "a function's call stack"), before, after):
            if a != b and (what != "a function's call stack"
                           or any(b[k] != a.get(k, b[k]) for k in b)):
                self.feed.fail(f"after the call, {what} is not what it was before: {a} {b}")

    def do_Begin(self, e):
        p, c = e["p"], e["c"]
        self.define(p)
        before = self.context()
        self.pending = e
        # the environment differs from run to run
        where = f"{env.SCRATCH}/runs/{os.getpid()}/{self.nruns + 1}"
        os.makedirs(where, exist_ok=True)
        os.chdir(where)
        try:
            for _ in range(100 if self.sometimes else 1):
                r = self.invoke(p, c)
                if self.pending is None:
                    break
                if self.sometimes and r != OTHER and self.version(c, r) != 1:
                    self.feed.fail(f"the call returned {r!r}")
        except Mismatch:
            raise
        except BaseException as x:
            self.left_by(x, before, p, c)
            raise
        if self.pending is not None:
            self.feed.fail(f"the call returned {r!r} without running")
        if self.flight:
            self.feed.fail("an exception was swallowed")
        self.unchanged(before)
        if not self.feed.open:
            self.feed.fail(f"the call returned {r!r} too early")
        self.feed.done(self.obs(ret=self.version(c, r)))

    def left_by(self, x, before, p, c):
        if self.pending is not None:
            self.feed.fail(f"the call failed with {x!r} without running")
        if self.feed.open:              # its own check, after the return
            e = self.feed.events[self.feed.n - 1]
            if e["a"] != "Return" or not e["differs"]:
                self.feed.fail(f"the call failed with {x!r}")
            self.nexc += 1
            self.flight, self.exc[self.nexc] = self.nexc, x
            self.unchanged(before)
            if self.sometimes:
                self.still_sometimes(p, c, 3 - e["v"])
            self.feed.done(self.obs(ret=0))
            return
        self.check(x)
        self.feed.next("Unwind")
        self.unchanged(before)
        self.feed.done(self.obs())

    def do_Block(self, e):
        try:
            with self.portals[e["p"]]:
                self.feed.done(self.obs())
                self.loop()
        except Mismatch:
            raise
        except BaseException as x:
            self.check(x)
            self.feed.next("Unwind")
            self.feed.done(self.obs())
            raise
        self.feed.done(self.obs())

    def do_Try(self, e):
        try:
            self.feed.done(self.obs())
            self.loop()
        except Mismatch:
            raise
        except BaseException as x:
            self.check(x)
            self.feed.next("Catch")
            self.flight = 0
        self.feed.done(self.obs())

    def do_Raise(self, e):
        self.nexc += 1
        msg = f"boom-{e['x']}-"
        self.exc[e["x"]] = self.rng.choice([ValueError, Custom, KeyboardInterrupt, AssertionError])(msg)
        self.flight = e["x"]
        self.feed.done(self.obs())
        raise self.exc[e["x"]]

    def do_Say(self, e):
        text = f"mark-{e['m']}-"
        how = self.rng.randrange(3)
        if how == 0:
            print(text)
        elif how == 1:
            sys.stderr.write(text + "\n")
        else:
            logging.getLogger("some.where").warning(text)
        self.feed.done(self.obs())

    # --------------------------------------------------------------- the rest
    def do_Restart(self, e):
        self.forget()
        self.open_session({p: self.disk[p] for p in self.rng.sample(e["K"], len(e["K"]))})
        self.feed.done(self.obs())

    def do_Swarm(self, e):
        before = self.context()
        p, c = e["p"], e["c"]
        if self.rng.random() < .7:
            a = self.wrapper(p, c).swarm(**self.kw(p, c))
            if tuple(a) != self.text[c]:
                self.feed.fail(f"swarm returns {a!r}")
        else:
            self.address(p, c).request_execution()
        self.unchanged(before)
        self.feed.done(self.obs())

    def do_Ask(self, e):
        before = self.context()
        p, c = e["p"], e["c"]
        a = self.address(p, c)
        requested = a.execution_requested
        ready = a.ready
        r = 0
        if ready:
            with self.portals[p]:
                r = a.get(timeout=0) if self.rng.random() < .5 else a.get()
            value = self.value[c]
            if isinstance(r, self.p.PureFn) and r.portal is not self.portals[p]:
                self.feed.fail("the result belongs to another portal")
            r = self.version(c, r)
            if len(self.portals) == 1:      # everything must be here
                self.complete(p, c)
            elif self.rng.random() < .4:
                status, msg = isolated(lambda _: self.alone(p, c), None, 60)
                if status != "ok":
                    self.feed.fail(f"reading everything from portal {p} alone fails: "
                                   + last_line(msg), msg)
        self.unchanged(before)
        self.feed.done(self.obs(ready=ready, ret=r, requested=requested))

    def complete(self, p, c):
        a = self.restored(p, c)
        name = self.call[c][0]
        assert (a.ready and self.version(c, a.get()) in (1, 2)
                and a.fn_name == self.real[name] and self.is_fn(a.function, name)
                and a.island_name == a.function.island_name
                and self.got(c, a.kwargs)), (
            "the function, the arguments or the result cannot be read from here")

    def alone(self, p, c):
        """In a process of its own: a session that only knows p."""
        self.forget()
        self.open_session({p: self.disk[p]})
        self.complete(p, c)

    def marks(self, text, exact):
        if not isinstance(text, str):
            self.feed.fail(f"the recorded output is {text!r}")
        out = [int(m) for m in re.findall(r"^mark-(\d+)-$", text, re.M)]
        if exact and text != "".join(f"mark-{m}-\n" for m in out):
            self.feed.fail(f"the recorded output is {text!r}")
        return out

    def raised(self, crashes):
        found = set()
        for x in crashes:
            ids = {int(i) for i in re.findall(r"boom-(\d+)-", json.dumps(x, default=repr))}
            if len(ids) != 1:
                self.feed.fail(f"a record of exceptions {ids}", repr(x)[:500])
            found |= ids
        return sorted(found)

    def env_of(self, context):
        """The number of the run whose environment this is."""
        if not isinstance(context, dict) or "hostname" not in context:
            self.feed.fail(f"a record's environment is {context!r}")
        return int(os.path.basename(context["working_directory"]))

    def do_Records(self, e):
        p, c = e["p"], e["c"]
        self.define(p)
        a = self.address(p, c)
        records = []
        for r in a.execution_records:
            n = len(r.crashes)
            exc = self.raised(r.crashes)
            if n != len(exc):
                self.feed.fail(f"{n} crashes are recorded, of {len(exc)} exceptions")
            out = self.marks(r.output, not self.nexc)
            try:
                res = self.version(c, r.result)
            except Mismatch:
                raise
            except BaseException:
                res = 0
            run = self.env_of(r.attempt_context)
            seen = sorted({int(i) for i in re.findall(r"boom-(\d+)-", r.output)})
            if not self.got(c, r.kwargs):
                self.feed.fail(f"the record's arguments are {r.kwargs!r}")
            records.append(dict(out=out, res=res, exc=exc, run=run, seen=seen)
                           if not self.p_checks else dict(out=out, res=res, exc=exc, run=run))
        n = len(records)
        with self.portals[p] as portal:
            if (len(a.execution_attempts), len(a.execution_outputs)) != (n, n):
                self.feed.fail("attempts or outputs do not fit the records")
            if len(a.execution_results) != sum(1 for r in records if r["res"]):
                self.feed.fail("results do not fit the records")
            if len(a.crashes) != sum(len(r["exc"]) for r in records):
                self.feed.fail("crashes do not fit the records")
            if n:
                src = {k: portal.run_history.py[a + [k]] for k in ("source", "augmented_source")}
                if src["source"] != self.source(self.call[c][0]):
                    self.feed.fail(f"the recorded source is {src['source']}")
                if any(self.source(k) not in src["augmented_source"] for k in "fg"
                       if k == "f" or self.call[c][0] != "many"):
                    self.feed.fail(f"the recorded source is {src['augmented_source']}")
                last = self.marks(a.last_execution_output, not self.nexc)
                attempt = self.env_of(a.last_execution_attempt)
            else:
                last, attempt = [], 0
                if not (a.last_execution_attempt is None and a.last_execution_output is None):
                    self.feed.fail("there is a last attempt without any")
            crash = self.raised([a.last_crash]) if a.last_crash is not None else []
        self.feed.done(self.obs(records=sorted(records, key=lambda r: r["run"]), last=attempt, out=last, crash=crash))
