"""C16: executions that fail - the function raises, a guard does, or the storage reports an
error at one of its operations - leave no result, and everything else as it was."""
import io
import logging
import random
import sys

from vf import env, pool, probe
from vf.procs import Injected
from vf.simdict import SimDict
from . import c15, store_traces as st
from .c15 import E, G, P, S


class Boom(Exception):
    pass


class Scene:
    """One process over LocalBackend. `kind` says what is called, `k` and `how` which
    storage operations fail."""
    NAMES, DISKS = ["f", "g"], ["d1", "d2"]

    def __init__(self, kind, k, how, seed, places):
        self.kind, self.k, self.how, self.places = kind, k, how, places
        self.rng = random.Random(seed)
        self.trace, self.ops, self.armed, self.hit = [], 0, False, 0
        self.own, self.raises, self.guard_fails = 1, None, False
        self.backend = SimDict.reset()
        self.backend.before, self.backend.after = self.before, self.after
        self.last = None
        env.clock.start()
        probe.install(body=self.body, guard=self.guard)

    # ------------------------------------------------------------- the storage
    def failing(self):
        """Is it this operation's turn to fail?"""
        if not self.armed:
            return False
        if self.how == "once":
            return self.ops == self.k
        if self.how == "twice":
            return self.ops in (self.k, self.k + 1)
        if self.how == "alternating":
            return self.ops >= self.k and (self.ops - self.k) % 2 == 0
        return self.ops >= self.k          # from then on

    def fault(self):
        self.hit += 1
        self.trace.append(dict(a="Fault", p="a", x="fault"))
        raise self.rng.choice([Injected, RuntimeError, TimeoutError])("injected")

    def before(self, op, path):
        if self.armed:
            self.ops += 1
        if self.failing() and not (self.how == "once" and self.late):
            self.fault()

    def after(self, op, path, result=None):
        if op in ("write", "remove"):
            self.trace += self.places.events(
                "a", op, path, self.backend.blobs[path][0] if op == "write" else None)
        if self.failing() and self.how == "once" and self.late:
            self.fault()

    late = False

    # ------------------------------------------------------------ the functions
    def kind_of(self, x):
        return "body" if x is self.last else "fault"

    def body(self, name, x, inner):
        s = f"{name}-{self.main}"
        self.trace.append(dict(a="Body", p="a", s=s))
        print("printed by", name)
        try:
            if inner is not None and name == "f":
                try:
                    self.call("g-" + self.main, lambda: inner(x=x))
                except Exception:
                    if self.kind != "caught":
                        raise
            if self.raises and name == self.raises[0]:
                self.last = self.raises[1]("boom")
                raise self.last
        except BaseException as x:
            self.trace.append(dict(a="Raise", p="a", s=s, x=self.kind_of(x)))
            raise
        self.trace.append(dict(a="Return", p="a", s=s, v=self.own))
        return st.VALUES[self.own]

    def guard(self, x):
        print("a guard")
        if self.guard_fails:
            self.trace.append(dict(a="Refuse", p="a", s="f-" + self.main, x="fault"))
            raise Boom("guard")

    def call(self, s, f):
        self.trace.append(dict(a="Begin", p="a", s=s, c=self.contexts.now(self.fns)))
        try:
            r = f()
        except BaseException as x:
            self.trace.append(dict(a="Fail", p="a", s=s, x=self.kind_of(x), c=self.contexts.now(self.fns)))
            raise
        self.trace.append(dict(a="End", p="a", s=s, v=st.version(r), c=self.contexts.now(self.fns)))
        return r

    def other(self, f):
        c = self.contexts.now(self.fns)
        how = ""
        try:
            f()
        except BaseException as x:
            how = self.kind_of(x)
            if self.kind == "get" and isinstance(x, TimeoutError):
                self.trace.append(dict(a="Fault", p="a", x="fault"))     # it may wait no longer
        self.trace.append(dict(a="Other", p="a", x=how, c=c, d=self.contexts.now(self.fns)))
        return how

    # -------------------------------------------------------------- the session
    def session(self):
        import pythagoras as pth
        from pythagoras._010_basic_portals.foundation import BasicPortal
        BasicPortal._clear_all()
        self.contexts = st.Contexts()
        self.main = "d1"
        check = 1 if self.kind == "checked" else self.rng.choice([0, None])
        self.other_portal = pth.PureCodePortal(SimDict("d2")) if self.kind == "elsewhere" else None
        self.portal = pth.PureCodePortal(SimDict("d1"), p_consistency_checks=check)
        nested = self.places.nested
        kw = {}
        if self.places.guards:
            pth.strictly_autonomous(portal=self.portal)("def h(x):\n    import vprobe\n    vprobe.guard(x)\n")
            kw = dict(guards=["h"])
        self.f = {n: pth.pure(portal=self.portal, **(kw if n == "f" else {}))(st.source(n, nested))
                  for n in self.NAMES}
        self.fns = list(self.f.values())

    def invoke(self, s="f-d1"):
        f, n = self.f["f"], self.rng.randrange(6)

        def restored():
            with self.portal:
                return self.pth.PureFnExecutionResultAddr.from_strings(
                    prefix=self.places.text["f"][0], hash_signature=self.places.text["f"][1],
                    assert_readiness=False)
        if n == 4 and self.other(lambda: f.get_address(x=st.ARG)):
            n = 3           # there may be nothing to restore it from
        ways = [lambda: f(x=st.ARG), lambda: f.run(x=st.ARG).get(), lambda: f.execute(x=st.ARG),
                lambda: f.get_address(x=st.ARG).execute(), lambda: restored().execute(),
                lambda: f.run_list([dict(x=st.ARG)])[0].get()]
        self.call(s, ways[n])

    def at_rest(self, f):
        """In a context of one's own: portals entered, output captured or replaced."""
        import contextlib
        from pythagoras import OutputCapturer, OutputSuppressor
        with contextlib.ExitStack() as stack:
            for _ in range(self.rng.randrange(3)):
                how = self.rng.randrange(5)
                if how == 0:
                    stack.enter_context(self.portal)
                elif how == 1 and self.other_portal is not None:
                    stack.enter_context(self.other_portal)
                elif how == 2:
                    stack.enter_context(OutputCapturer())
                elif how == 3:
                    stack.enter_context(OutputSuppressor())
                else:
                    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
            c = self.contexts.now(self.fns)
            try:
                f()
            except BaseException:
                pass
            self.armed = False
            if self.contexts.now(self.fns) != c:
                return "after the call, what is entered, where output goes or what runs is not what it was"

    def act(self):
        """What may fail."""
        kind, f = self.kind, self.f["f"]
        address = lambda: f.get_address(x=st.ARG)
        if kind in ("fresh", "nested", "caught", "elsewhere", "checked", "guarded", "guard", "raises",
                    "raises inside", "published"):
            return self.invoke()
        a = address()
        self.armed = True
        self.other(dict(
            swarm=lambda: f.swarm(x=st.ARG), request=a.request_execution,
            ready=lambda: a.ready, get=lambda: a.get(timeout=0), needs=lambda: a.needs_execution,
            can=lambda: a.can_be_executed, drop=lambda: a.drop_execution_request(),
            records=lambda: a.execution_records, describe=self.portal.describe)[kind])

    KINDS = ["fresh", "nested", "caught", "elsewhere", "checked", "guarded", "guard", "raises",
             "raises inside", "published"]
    OTHERS = ["swarm", "request", "ready", "get", "needs", "can", "records", "describe"]

    def run(self):
        import pythagoras
        self.pth = pythagoras
        self.late = self.how == "late"
        if self.late:
            self.how = "once"
        self.session()
        kind = self.kind
        if kind in ("checked", "published"):
            self.call("f-d1", lambda: self.f["f"](x=st.ARG))
        if kind == "elsewhere":
            self.main = "d2"
            with self.other_portal:
                # the same function there, then gone from this session
                g = {n: pythagoras.pure(portal=self.other_portal)(st.source(n, self.places.nested))
                     for n in self.NAMES}
                self.call("f-d2", lambda: g["f"](x=st.ARG))
            self.session()
        if kind == "guard":
            self.guard_fails = True
        if kind == "raises":
            self.raises = ("f", self.rng.choice([Boom, KeyboardInterrupt, SystemExit, AssertionError]))
        if kind == "raises inside":
            self.raises = ("g", self.rng.choice([Boom, KeyboardInterrupt, TimeoutError]))
        if self.rng.random() < .3:
            self.f["f"].swarm(x=st.ARG)
        self.armed = True
        if kind in self.OTHERS:
            self.armed = False
        msg = self.at_rest(self.act)
        self.armed = False
        if msg:
            return msg
        # the cause is gone: the same call, in this session or the next
        self.raises, self.guard_fails = None, False
        if self.kind == "caught":
            self.kind = "nested"
        self.look()
        if self.rng.random() < .6:
            self.retry()
        self.session()
        self.look()
        self.retry()
        self.look()

    def retry(self):
        try:
            self.invoke()
        except BaseException as x:
            import traceback
            raise RuntimeError("the same call, made later, fails: " + "".join(traceback.format_exception(x)))

    def look(self):
        for n in self.NAMES:
            a = self.f[n].get_address(x=st.ARG)
            with self.portal:
                there = a in self.portal.execution_results
            self.trace.append(dict(a="Look", s=f"{n}-d1", v=st.version(a.get()) if there else 0,
                                   asked=bool(a.execution_requested), n=len(a.execution_attempts)))


_places = {}


def places(nested, guards):
    import pythagoras as pth
    key = (nested, guards)
    if key not in _places:
        def define(portal):
            kw = {}
            if guards:
                pth.strictly_autonomous(portal=portal)("def h(x):\n    import vprobe\n    vprobe.guard(x)\n")
                kw = dict(guards=["h"])
            return {n: pth.pure(portal=portal, **(kw if n == "f" else {}))(st.source(n, nested))
                    for n in Scene.NAMES}
        _places[key] = st.Places(pth, Scene.DISKS, Scene.NAMES, nested, define)
        _places[key].nested, _places[key].guards = nested, guards
    return _places[key]


def perform(job):
    """All operations k of one kind of scene, from first by step, until none is left."""
    kind, how, first, step, limit, seed = job
    pl = places(kind in ("nested", "caught", "raises inside"), kind in ("guarded", "guard", "can"))
    out = []
    for k in range(first, limit, step):
        s = Scene(kind, k, how, f"{seed}/{k}", pl)
        streams = sys.stdout, sys.stderr, logging.root.handlers
        try:
            msg = s.run()
        except BaseException as x:
            import traceback
            msg = f"{type(x).__name__}: {x}\n" + "".join(traceback.format_exception(x))
        sys.stdout, sys.stderr, logging.root.handlers = streams
        out.append(((kind, how, k), msg, s.trace))
        if not s.hit and k > 1:
            break
    env.clock.stop()
    return out


def run(ctx):
    jobs = []
    hows = ["once", "late", "twice", "from then on", "alternating"]
    for kind in Scene.KINDS + Scene.OTHERS:
        for how in hows:
            wide = how in ("once", "late") or ctx.thorough
            parts = 4 if wide and kind in Scene.KINDS else 1
            stride = 1 if ctx.thorough else (2 if wide else 9) if kind in Scene.KINDS else (3 if wide else 11)
            for i in range(parts):
                for seed in range(ctx.pick(1, 6)):
                    first = 1 + i * stride + ctx.rng.randrange(stride)
                    jobs.append((kind, how, first, stride * parts, 2000, f"{ctx.seed}/{seed}"))
    runs = []
    for j, (status, res) in zip(jobs, pool.run_all(perform, jobs, timeout=300)):
        if status != "ok":
            ctx.violation(f"{j}: {pool.last_line(res)}", dict(job=j, result=res))
            continue
        for how, msg, trace in res:
            if msg:
                ctx.violation(f"{how}: {pool.last_line(msg)}", dict(how=how, message=msg, trace=trace))
            else:
                runs.append((how, trace))
    ctx.sample(dict(fault=runs[0][0], trace=runs[0][1]) if runs else None)
    ctx.count("fault_points", len(runs))
    st.validate(ctx, runs, [f"{n}-{d}" for n in Scene.NAMES for d in Scene.DISKS], {"a"}, "faults, one process")
    c15.explore(ctx, [
        ("an execution", dict(a=E), [], 0, None),
        ("two executions, faults", dict(a=E, b=E), [], 1, None),
        ("an execution that raises, faults", dict(a=E, b=E), ["a"], 0, None),
        ("execution and reader, faults", dict(a=E, b=G), [], 0, None),
        ("execution and enquiries, faults", dict(a=E, b=P), [], 0, None),
        ("executions and request, faults", dict(a=E, b=E, c=S), ["b"], 1, 60),
    ], 2, ctx.pick(25, 4000))
