"""C23: background workers."""
import atexit
import json
import os
import pickle
import random
import sys
import tempfile
import traceback

from vf import env, pool, probe
from vf.procs import Procs
from vf.simdict import LocalBackend, SimDict

SRC = """def {name}(x):
    import vprobe, sys, logging
    print("some output")
    print("some more", file=sys.stderr)
    sys.stderr.write("and more")
    return vprobe.body("{call}", x)
"""
GUARD = "def open_gate(x):\n    import vprobe\n    assert vprobe.gate()\n"
ARGS = {"g1": 1, "g2": {"an": ["argument"]}, "gt": None, "v2": None, "f1": 0}
NAME = {"g1": "g", "g2": "g", "gt": "h", "v2": "h", "f1": "f"}
VALUES = {"g1": ["r", 1], "g2": None, "gt": {"a": 1}, "v2": 0, "f1": None}
GOOD = ["g1", "g2", "gt", "v2"]
CALLS = GOOD + ["f1"]


def call_of(name, x):
    return {"g": "g1" if x == 1 else "g2"}.get(name, name)


class Context:
    """What multiprocessing is to the code: starting and joining are for the scheduler."""

    def __init__(self, note, method):
        self.note, self.method = note, method

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        return Child(self.note, self.method, target, args, kwargs or {})


class Child:
    exitcode = None

    def __init__(self, note, method, target, args, kwargs):
        self.x = (note, method, target, args, kwargs)

    def start(self):
        note, method, target, args, kwargs = self.x
        note("launch", method=method, task=pickle.dumps((target, args, kwargs)))

    def join(self, timeout=None):
        self.x[0]("join")
        self.exitcode = 0

    def is_alive(self):
        return self.exitcode is None


def define(p, portal, call, island=None):
    with portal:
        if call == "gt":
            guard = p.strictly_autonomous()(GUARD)
            return p.pure(guards=[guard])(SRC.format(name="h", call="gt"))
        return p.pure()(SRC.format(name=NAME[call], call="g" if call in ("g1", "g2") else call))


def prepare(note, n):
    """What a new process finds itself in."""
    from pythagoras._020_logging_portals.logging_portals import LoggingPortal
    random.seed(n)
    LoggingPortal.entropy_infuser = random.Random(n)
    atexit.unregister(env._cleanup)
    env.process_context.factory = lambda m: Context(lambda what, **d: hear(note(what, **d)), m)


def hear(answer):
    if isinstance(answer, dict) and "now" in answer:
        env.clock.t = answer["now"]
    return answer


def gate():
    return SimDict.backend.has("ctl/gate")


def session(p, job, s):
    """A session: it does as it is told."""
    def main(note):
        prepare(note, job["n"] * 10 + s)
        calm = dict(body=lambda call, x: job["values"][call_of(call, x)], gate=gate)
        probe.install(**calm)
        from pythagoras._010_basic_portals.foundation import BasicPortal
        others = [p.PureCodePortal(SimDict("other"))] if job["others"] == 1 else []
        hear(note("begins"))
        portal = p.SwarmingPortal(SimDict("d"), n_background_workers=job["workers"][s - 1], **job["settings"])
        if job["others"] == 2:
            others = [p.PureCodePortal(SimDict("other"))]
        answer = hear(note("up", rid=portal.runtime_id, params=portal.__get_portable_params__()))
        addrs = {c: a for c, a in answer["addrs"].items()}
        fns = {}
        while True:
            said = {}
            cmd = hear(note("ready"))["cmd"]
            while cmd is not None:
                what, c = cmd
                if what == "end":
                    atexit._run_exitfuncs()
                    return "ended"
                with portal:
                    if c == "b1":
                        portal.execution_requests[("g_" + job["settings"]["default_island_name"],
                                                   "1nosuchcall0000000000")] = True
                    elif c == "b2":
                        portal.execution_requests["junk"] = True
                    elif c == "b3":
                        define(p, portal, "g1").get_address(x="lost").request_execution()
                    elif what == "request" and (c == "v2" or (c in fns and random.random() < .3)):
                        a = p.PureFnExecutionResultAddr.from_strings(
                            prefix=addrs[c][0], hash_signature=addrs[c][1], assert_readiness=False)
                        a.request_execution()
                    elif what == "request":
                        fns[c] = fns.get(c) or define(p, portal, c)
                        if random.random() < .5:
                            fns[c].swarm_list([dict(x=ARGS[c])])
                        else:
                            fns[c].get_address(x=ARGS[c]).request_execution()
                    elif what == "call":
                        fns[c] = fns.get(c) or define(p, portal, c)
                        fns[c](x=ARGS[c])
                    elif what == "collect":
                        a = p.PureFnExecutionResultAddr.from_strings(
                            prefix=addrs[c][0], hash_signature=addrs[c][1], assert_readiness=False)
                        said = dict(value=a.get(timeout=0), records=len(a.execution_records))
                if BasicPortal.entered_portals_stack:
                    said["left"] = True
                cmd = hear(note("done", **said))["cmd"]
    return main


def started(what, n):
    """A process started by the code, as multiprocessing would run it."""
    def main(note):
        prepare(note, n)

        def body(call, x):
            from pythagoras._010_basic_portals.foundation import BasicPortal
            portal = BasicPortal.entered_portals_stack[-1]
            c = call_of(call, x)
            answer = hear(note("body", c=c, x=x, params=portal.__get_portable_params__()))
            if c == "f1":
                raise ValueError("it fails")
            return answer["value"]
        probe.install(body=body, gate=gate)
        fd, path = tempfile.mkstemp()
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout, sys.stderr = open(1, "w", closefd=False), open(2, "w", closefd=False)
        try:
            hear(note("born"))
            target, args, kwargs = pickle.loads(what)
            target(*args, **kwargs)
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        with open(path) as f:
            return f.read()
    return main


class Swarming:
    def __init__(self, job):
        import pythagoras as p
        self.p, self.job, self.rng = p, job, random.Random(job["n"])
        self.trace, self.problem = [], None
        self.P = Procs(lambda op, path: False, on_note=self.heard)
        self.backend = self.P.backend
        env.clock.start(1_800_000_000.0)
        self.addrs = {}
        self.rid, self.params = {}, {}
        self.cmd = {}
        self.nprocs = 0
        self.setup()

    def bad(self, text):
        if self.problem is None:
            self.problem = text

    # --- what a scenario is about
    def setup(self):
        """The addresses of the calls, made elsewhere; of v2 the code, too."""
        p, job = self.p, self.job

        def addresses(note):
            prepare(note, 1)
            probe.install(body=None, gate=gate)
            found = {}
            for c in CALLS:
                b = SimDict.backend
                if c != "v2":
                    SimDict.backend = LocalBackend()
                portal = p.PureCodePortal(SimDict("d"), default_island_name=job["settings"]["default_island_name"])
                a = define(p, portal, c).get_address(x=ARGS[c])
                found[c] = tuple(a)
                SimDict.backend, keep = LocalBackend(), SimDict.backend
                p.BasicPortal._clear_all()
                SimDict.backend = b
            return found
        self.P.start("addresses", addresses)
        kind, found = self.P.result["addresses"]
        if kind != "end":
            raise RuntimeError(found)
        self.addrs = found

    def entries(self):
        """Requests, results, attempts and record, as they are in the storage."""
        req, done, att = set(), set(), {}
        blobs = list(self.backend.blobs)
        asked = [b for b in blobs if b.startswith("d/execution_requests/")]
        for c, (prefix, h) in self.addrs.items():
            mine = [b for b in asked if h in b]
            if mine:
                req.add(c)
                asked = [b for b in asked if h not in b]
            if any(b.startswith("d/execution_results/") and h in b for b in blobs):
                done.add(c)
            att[c] = sum(1 for b in blobs if b.startswith("d/run_history/") and h in b and "/attempts/" in b)
        for b in asked:
            req.add("b1" if "1nosuchcall" in b else "b2" if "junk" in b else "b3")
        rec = 0
        for b in blobs:
            if b.startswith("d/compute_nodes/") and "/runtime_id" in b:
                rec = next((s for s, r in self.rid.items() if r.encode() in self.backend.blobs[b][0]), -1)
        return dict(req=sorted(req), done=sorted(done), att=att, rec=rec)

    def event(self, a, **kw):
        self.trace.append(dict(a=a, **kw, **self.entries()))

    # --- what processes say
    def heard(self, name, what, d):
        base = dict(now=env.clock.t)
        if what == "launch":
            pass
        elif what == "up":
            base["addrs"] = self.addrs
        elif what == "ready":
            base["cmd"] = self.cmd.pop(name, None)
        elif what == "done":
            if d.get("left"):
                self.bad("portals are left entered")
            base["cmd"] = self.cmd.pop(name, None)
        elif what == "body":
            base["value"] = self.job["values"][d["c"]]
        return base

    def at(self, name):
        """Where a process stands: what it is about to say, or sleep."""
        m = self.P.pending.get(name)
        if m is None:
            return None
        return "sleep" if m[0] == "sleep" else m[1]

    def tell(self, s, *cmd):
        name = f"S{s}"
        self.cmd[name] = cmd
        self.P.advance(name)
        if cmd[0] != "end" and self.at(name) != "done":
            self.bad(f"a session could not do {cmd}: {pool.last_line(self.P.result.get(name, ('', ''))[1])}")

    def start(self, s):
        name = f"S{s}"
        job = self.job
        self.P.start(name, session(self.p, job, s))
        self.P.advance(name)
        launches = []
        while self.at(name) == "launch":
            launches.append(self.P.pending[name][2])
            self.P.advance(name)
        if self.at(name) != "up":
            self.bad(f"no session: {pool.last_line(self.P.result.get(name, ('', ''))[1])}")
            return
        d = self.P.pending[name][2]
        self.rid[s], self.params[s] = d["rid"], d["params"]
        self.P.advance(name)
        mine = [k for k in sorted(self.job["session_of"]) if self.job["session_of"][k] == s]
        if len(launches) != len(mine):
            self.bad(f"{len(launches)} workers are started instead of {len(mine)}")
        self.event("Start", s=s)
        for k, l in zip(mine, launches):
            self.launched(f"W{k}", l)
            self.moved_worker(k)

    def launched(self, name, l):
        self.nprocs += 1
        if l["method"] != "spawn":
            self.bad(f"a process is started by {l['method']}")
        self.P.start(name, started(l["task"], self.job["n"] * 1000 + self.nprocs))
        self.P.advance(name)

    def checked_params(self, got, s, what):
        want = dict(self.params[s], n_background_workers=0)
        if {k: got.get(k) for k in want} != want:
            self.bad(f"{what} with {got} instead of {want}")

    def ended(self, name):
        kind, text = self.P.result[name]
        if kind != "end":
            self.bad(f"a process of the swarm: {pool.last_line(text)}")
        elif text:
            self.bad(f"a process of the swarm prints {text[-300:]!r}")

    def moved_worker(self, k):
        """A worker has come to its next stop."""
        name = f"W{k}"
        at = self.at(name)
        if at == "launch":
            self.event("Launch", k=k)
        elif at is None:
            self.ended(name)
            self.event("Leave", k=k)
        elif at != "sleep":
            self.bad(f"a worker {at}s")

    def step_worker(self, k):
        """Returns whether it could do something."""
        name = f"W{k}"
        at = self.at(name)
        if at == "sleep":
            d = self.P.pending[name][1]
            self.event("Pass", d=round(d * 1000))
            self.P.advance(name)
            self.moved_worker(k)
        elif at == "launch":
            l = self.P.pending[name][2]
            self.P.advance(name)
            if self.at(name) != "join":
                self.bad(f"a worker does not wait for its child but {self.at(name)}s")
                return False
            self.launched(f"C{k}", l)
            self.moved_child(k)
        elif at == "join":
            if f"C{k}" in self.P.pending:
                return self.step_child(k)
            self.P.advance(name)
            self.event("Join", k=k)
            self.moved_worker(k)
        else:
            return False
        return True

    def step_child(self, k):
        name = f"C{k}"
        at = self.at(name)
        if at == "sleep":
            d = self.P.pending[name][1]
            self.event("Pass", d=round(d * 1000))
            self.P.advance(name)
            self.moved_child(k)
        elif at == "body":
            self.P.advance(name)
            if self.at(name) is None:
                self.ended(name)
                self.event("Finish", k=k)
            else:
                self.bad(f"having executed a call a child {self.at(name)}s")
        else:
            return False
        return True

    def moved_child(self, k):
        name = f"C{k}"
        at = self.at(name)
        if at == "sleep":
            self.event("Idle", k=k)
        elif at == "body":
            d = self.P.pending[name][2]
            self.checked_params(d["params"], self.job["session_of"][k], "a call is executed")
            if d["x"] != ARGS[d["c"]]:
                self.bad(f"a call is executed with {d['x']!r}")
            self.event("Run", k=k, c=d["c"])
        elif at is None:
            self.ended(name)
            self.event("Quit", k=k)
        else:
            self.bad(f"a child {at}s")

    # --- schedules
    def procs_step(self):
        ks = [k for k in self.job["session_of"] if f"W{k}" in self.P.pending]
        self.rng.shuffle(ks)
        for k in ks:
            if self.step_worker(k):
                return True
        return False

    def live(self):
        return [s for s in self.rid if f"S{s}" in self.P.pending]

    def one(self):
        r, job = self.rng, self.job
        x = r.random()
        live = self.live()
        if x < .5 and self.procs_step():
            return
        if x < .8 and live:
            c = r.choice(job["calls"] * 2 + job["broken"])
            s = r.choice(live)
            if c in job["broken"]:
                self.tell(s, "break", c)
                if c == "b3":
                    # its arguments are lost
                    for b in [b for b in self.backend.blobs if "/sortedkwargs/" in b]:
                        if b not in self.before_lost:
                            del self.backend.blobs[b]
                self.event("Break", c=c)
            elif r.random() < .12 and c in ("g1", "g2") and c not in self.entries()["done"] \
                    and not any(self.running(k) == c for k in job["session_of"]):
                self.tell(s, "call", c)
                self.event("Call", c=c)
            else:
                self.tell(s, "request", c)
                self.event("Request", c=c)
        elif x < .88:
            if gate_open(self.backend):
                self.backend.remove("ctl/gate")
            else:
                self.backend.write("ctl/gate", b"", False)
            self.event("Flip")
        elif x < .94:
            d = r.choice([3, 15, 25, 70, 700])
            env.clock.t += d
            self.event("Pass", d=d * 1000)
        elif x < .96 and 2 in job["sessions"] and 2 not in self.rid and 1 in self.rid:
            self.start(2)
        elif x < .97 and live and r.random() < .5:
            self.end(r.choice(live))

    def running(self, k):
        m = self.P.pending.get(f"C{k}")
        return m[2].get("c") if m and m[0] == "note" and m[1] == "body" else None

    def end(self, s):
        self.tell(s, "end", None)
        name = f"S{s}"
        if name in self.P.pending or self.P.result[name] != ("end", "ended"):
            self.bad(f"a session does not end: {self.P.result.get(name)}")
        self.event("End", s=s)

    def run(self):
        job = self.job
        if job["gate"]:
            self.backend.write("ctl/gate", b"", False)
        self.trace.append(dict(a="Gate", v=job["gate"]))
        self.start(1)
        self.before_lost = set()
        n = 0
        while n < job["steps"] and not self.problem:
            n += 1
            self.before_lost = set(self.backend.blobs)
            self.one()
        live = [s for s in self.live() if self.entries()["rec"] == s]
        if live and not self.problem and any(job["session_of"][k] == live[0] for k in job["session_of"]):
            n = 0
            while n < 400 and not self.problem:
                n += 1
                e = self.entries()
                left = [c for c in e["req"] if c in GOOD and (c != "gt" or gate_open(self.backend))]
                if not left and self.rng.random() < .1:
                    break
                if left and n % 40 == 0:
                    env.clock.t += 700      # it may have stopped in the middle
                    self.event("Pass", d=700000)
                self.procs_step()
            self.event("Settled")
            for c in [c for c in self.entries()["done"]]:
                self.tell(live[0], "collect", c)
                said = self.said_now(live[0])
                if said.get("value", "nothing") != job["values"][c]:
                    self.bad(f"the result of {c} is {said}")
        for s in self.live():
            if not self.problem:
                self.end(s)
        n = 0
        while n < 400 and not self.problem and self.procs_step():
            n += 1
        if not self.problem:
            self.event("Ended")
        return self.problem, self.trace

    def said_now(self, s):
        m = self.P.pending.get(f"S{s}")
        return m[2] if m and m[1] == "done" else {}


def gate_open(backend):
    return "ctl/gate" in backend.blobs


def perform(jobs):
    out = []
    for j in jobs:
        s = None
        try:
            s = Swarming(j)
            out.append(s.run())
        except Exception:
            out.append((traceback.format_exc(), s.trace if s else None))
        finally:
            if s:
                s.P.close()
            env.clock.stop()
    return out


def job(n, r, steps):
    two = r.random() < .35
    workers = [r.choice([1, 1, 2, 3]), r.choice([0, 1, 2]) if two else 0]
    calls, gate = r.sample(CALLS, r.randint(2, 5)), r.random() < .5
    if r.random() < .15:
        two, workers, calls, gate, steps = False, [1, 0], ["gt", "v2", "f1"], False, 8
    return dict(n=n, steps=steps, sessions=[1, 2] if two else [1], workers=workers, others=r.choice([0, 0, 1, 2]),
                session_of={1 + i: 1 if i < workers[0] else 2 for i in range(sum(workers))},
                calls=calls, broken=r.sample(["b1", "b2", "b3"], r.randint(0, 2)),
                gate=gate, values=dict(VALUES),
                settings=dict(default_island_name=r.choice(["Samos", "isle"]),
                              p_consistency_checks=r.choice([0, 0.5, 1])))


def run(ctx):
    full = dict(Workers={1, 2}, SessionOf=[1, 2], Sessions={1, 2}, Slack=0, Horizon=30000, Breaks={"b1"})
    ctx.tlc("Swarm", constants=dict(full, Good={"g1", "gt", "v2"} if ctx.thorough else {"gt", "v2"}, Horizon=0), spec="MSpec",
            invariants=["MType", "OneRecord", "NotTwice"], properties=["OnlyAsked", "Ends"])
    ctx.tlc("Swarm", constants=dict(full, Good={"gt", "v2"}, Workers={1}, SessionOf=[1], Sessions={1}), spec="MSpec",
            invariants=["MType", "OneRecord", "NotTwice"], properties=["OnlyAsked", "Ends", "Served"])
    r = ctx.rng
    jobs = [job(n + 100000 * ctx.seed, r, r.choice([10, 25, 45])) for n in range(ctx.pick(160, 4000))]
    groups = [jobs[i:i + 4] for i in range(0, len(jobs), 4)]
    runs = []
    for g, (st, res) in zip(groups, pool.run_all(perform, groups, timeout=200)):
        if st != "ok":
            ctx.violation("swarm: " + pool.last_line(res), dict(jobs=g, result=res))
            continue
        for j, (msg, trace) in zip(g, res):
            if msg:
                ctx.violation(f"swarm: {pool.last_line(msg)}", dict(job=j, problem=msg, trace=trace))
            elif trace:
                runs.append((j, trace))
    ctx.sample(dict(job=runs[0][0], trace=runs[0][1]) if runs else None)
    far = {}

    def seen(x):
        far[x["t"]] = max(far.get(x["t"], 0), x["i"])
    # all of the workers of a scenario have numbers; which session each belongs to varies
    shapes = {}
    for j, t in runs:
        shapes.setdefault(tuple(sorted(j["session_of"].items())), []).append((j, t))
    for shape, rs in sorted(shapes.items()):
        far.clear()
        ctx.tlc("SwarmTrace", constants=dict(full, Workers={k for k, _ in shape}, SessionOf=[s for _, s in shape],
                                             Good=set(GOOD), Slack=200, Breaks=set()),
                init="TInit", next="TNext", action_constraint="Progress", on_line=seen,
                files={"traces.json": json.dumps([t for _, t in rs])}, invariants=["MType", "OneRecord"])
        for n, (j, t) in enumerate(rs):
            got = far.get(n + 1, 2)
            ctx.count("traces_validated_against_impl")
            ctx.count("impl_steps", len(t))
            if got <= len(t):
                ctx.violation(f"swarm: after {[e['a'] for e in t[:got - 1]][-6:]} the code does {t[got - 1]}",
                              dict(job=j, trace=t, step=got))
