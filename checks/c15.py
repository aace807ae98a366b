"""C15: executions, requests and readers of one call over shared storage, interleaved one
storage operation at a time, stopping anywhere."""
import json
import random

from vf import env, pool, probe, tla
from vf.procs import Procs
from vf.simdict import SimDict
from . import store_traces as st


class Boom(Exception):
    pass


def kind_of(x):
    return "body" if isinstance(x, Boom) else "fault"


class Runner:
    def __init__(self, seed, job, raises, variant, places):
        self.rng = random.Random(seed)
        self.job, self.raises, self.variant, self.places = job, raises, variant, places
        self.trace = []
        self.own = {p: 1 if variant["same"] else 1 + (i % 2) for i, p in enumerate(sorted(job))}
        self.disk = {p: self.rng.choice(variant["disks"]) for p in job}
        self.seeds = {p: self.rng.random() for p in list(job) + ["z"]}
        self.procs = Procs(lambda op, path: places.interesting(path), self.on_op, self.on_note)
        self.crashed, self.faulted = set(), set()

    def on_op(self, p, op, args, answer):
        ok, x = answer
        if ok and op in ("write", "remove"):
            self.trace += self.places.events(p, op, args[0], args[1] if op == "write" else None)

    def on_note(self, p, what, data):
        self.trace.append(dict(a=what, p=p, **data))

    # ------------------------------------------------- in the forked processes
    def session(self, p, note):
        import pythagoras as pth
        rng = random.Random(self.seeds[p])
        main = self.disk.get(p, self.variant["disks"][0])
        others = [d for d in self.variant["disks"] if d != main and rng.random() < .7]
        for d in others:
            pth.PureCodePortal(SimDict(d))
        check = rng.choice([0, 1, .5] if self.variant["same"] else [0, None])
        portal = pth.PureCodePortal(SimDict(main), p_consistency_checks=check)

        def body(name, x, inner):
            s = f"{name}-{main}"
            note("Body", s=s)
            assert x == st.ARG
            if inner is not None and name == "f":
                try:
                    self.call(note, s.replace("f-", "g-"), lambda: inner(x=x))
                except BaseException as x:
                    note("Raise", s=s, x=kind_of(x))
                    raise
            if p in self.raises and (inner is None or name != "f"):
                note("Raise", s=s, x="body")
                raise Boom(name)
            note("Return", s=s, v=self.own.get(p, 1))
            return st.VALUES[self.own.get(p, 1)]
        probe.install(body=body)
        names = self.variant["names"]
        fns = {n: pth.pure(portal=portal)(st.source(n, self.variant["nested"])) for n in names}
        self.contexts, self.fns = st.Contexts(), list(fns.values())
        return rng, portal, main, fns

    def call(self, note, s, f):
        note("Begin", s=s, c=self.contexts.now(self.fns))
        try:
            r = f()
        except BaseException as x:
            note("Fail", s=s, x=kind_of(x), c=self.contexts.now(self.fns))
            raise
        note("End", s=s, v=st.version(r), c=self.contexts.now(self.fns))
        return r

    def process(self, p, kind):
        def fn(note):
            import pythagoras as pth
            rng, portal, main, fns = self.session(p, note)
            s, f = "f-" + main, fns["f"]

            def address():
                if rng.random() < .5:
                    return f.get_address(x=st.ARG)
                with portal:
                    return pth.PureFnExecutionResultAddr.from_strings(
                        prefix=self.places.text["f"][0], hash_signature=self.places.text["f"][1],
                        assert_readiness=False)
            if kind == "exec":
                try:
                    self.call(note, s, rng.choice([
                        lambda: f(x=st.ARG), lambda: f.run(x=st.ARG).get(),
                        lambda: f.get_address(x=st.ARG).execute(),
                        lambda: f.run_list([dict(x=st.ARG)])[0].get()]))
                except Exception:
                    pass
                return
            before, how = self.contexts.now(self.fns), ""
            try:
                self.other(rng, note, kind, s, f, address)
            except Exception as x:
                if kind == "look":
                    raise
                how = kind_of(x)
            if kind == "look":
                return self.found(portal, fns, main)
            note("Other", x=how, c=before, d=self.contexts.now(self.fns))
        return fn

    def other(self, rng, note, kind, s, f, address):
        if kind == "swarm":
            rng.choice([lambda: f.swarm(x=st.ARG), lambda: f.swarm_list([dict(x=st.ARG)]),
                        lambda: f.swarm_grid(dict(x=[st.ARG])),
                        lambda: address().request_execution()])()
        elif kind == "get":
            note("Answer", s=s, v=st.version(address().get()))
        elif kind == "poll":
            a = address()
            for i in range(3):
                note("Ask", s=s)
                if a.ready:
                    note("Answer", s=s, v=st.version(a.get()))
                else:
                    note("NotReady", s=s)

    def found(self, portal, fns, main):
        out = []
        for n in self.variant["names"]:
            a = fns[n].get_address(x=st.ARG)
            with portal:
                # whether it is there, asked of the store: `ready` would copy it
                there = a in portal.execution_results
            out.append(dict(a="Look", s=f"{n}-{main}", v=st.version(a.get()) if there else 0,
                            asked=bool(a.execution_requested), n=len(a.execution_attempts)))
        return out

    # ------------------------------------------------------------ the schedule
    def run(self, events):
        try:
            for p in sorted(self.job):
                self.procs.start(p, self.process(p, self.job[p]))
            for e in events:
                if e["a"] == "Op":
                    for _ in range(self.rng.choice([1, 1, 1, 2, 3])):
                        self.advance(e["p"])
                elif e["a"] == "Fault":
                    self.faulted.add(e["p"])
                    self.procs.advance(e["p"], self.rng.choice(["before", "after"]))
                elif e["a"] == "Crash" and self.procs.running(e["p"]):
                    self.crash(e["p"])
            if self.variant["stop"]:
                for p in sorted(self.job):
                    if self.procs.running(p) and self.rng.random() < .5:
                        self.crash(p)
            self.finish([p for p in self.job if self.job[p] != "get"])
            self.look()
            self.procs.start("z", self.process("z", "exec"))
            self.finish(["z"])
            for p in [p for p in self.job if self.job[p] == "get" and p not in self.crashed | self.faulted]:
                # whoever waits looks at its own disk, and at the others it knows
                if self.disk[p] == self.variant["disks"][0]:
                    self.finish([p], 60)
            self.look()
            if self.procs.running("z"):
                return "the last execution does not end", self.trace
            for p, r in self.procs.result.items():
                if r[0] == "dead":
                    return f"process {p} ({self.job.get(p)}) died: {pool.last_line(r[1])}", self.trace
            for p in self.job:
                if self.procs.running(p) and p not in self.faulted and self.disk[p] == self.variant["disks"][0]:
                    return f"process {p} ({self.job[p]}) does not end", self.trace
            return None, self.trace
        finally:
            self.procs.close()
            env.clock.stop()

    def crash(self, p):
        self.crashed.add(p)
        self.procs.kill(p)
        self.trace.append(dict(a="Crash", p=p))

    def advance(self, p):
        self.procs.advance(p)

    def finish(self, ps, limit=400):
        for _ in range(limit):
            todo = [p for p in ps if self.procs.running(p)]
            if not todo:
                return
            self.advance(self.rng.choice(todo))

    def look(self):
        for d in self.variant["disks"]:
            self.disk["look"] = d
            self.seeds["look"] = .5
            self.procs.start("look", self.process("look", "look"))
            while self.procs.running("look"):
                self.advance("look")
            kind, res = self.procs.result.pop("look")
            if kind == "dead":
                raise RuntimeError("looking at the store failed: " + res)
            self.trace += res


_places = {}


def perform(chunk):
    import pythagoras
    from pythagoras._010_basic_portals.foundation import BasicPortal
    out = []
    for seed, job, raises, variant, events in chunk:
        key = (tuple(variant["disks"]), tuple(variant["names"]), variant["nested"])
        try:
            if key not in _places:
                _places[key] = st.Places(pythagoras, variant["disks"], variant["names"], variant["nested"])
                BasicPortal._clear_all()
            out.append(Runner(seed, job, set(raises), variant, _places[key]).run(events))
        except Exception as x:
            out.append((f"{type(x).__name__}: {x}", []))
    return out


VARIANTS = {
    "one store": dict(disks=["d1"], names=["f"], nested=False, same=False, stop=False),
    "one store, equal results, checks": dict(disks=["d1"], names=["f"], nested=False, same=True, stop=False),
    "calls inside calls": dict(disks=["d1"], names=["f", "g"], nested=True, same=False, stop=True),
    "two stores": dict(disks=["d1", "d2"], names=["f"], nested=False, same=False, stop=True),
}


E, S, G, P = "exec", "swarm", "get", "poll"


def run(ctx):
    explore(ctx, [
        ("two executions", dict(a=E, b=E), [], 1, None),
        ("two executions, one raises", dict(a=E, b=E), ["a"], 1, None),
        ("execution and request", dict(a=E, b=S), [], 1, None),
        ("execution and reader", dict(a=E, b=G), [], 1, None),
        ("execution and enquiries", dict(a=E, b=P), [], 1, None),
        ("three executions", dict(a=E, b=E, c=E), ["b"], 2, 90),
        ("two executions, request, reader", dict(a=E, b=E, c=S, d=G), [], 2, 90),
    ], 0, ctx.pick(60, 6000), [lambda: ctx.tlc("PureConc", constants=dict(
            Procs=set("abc"), Job=dict(a=E, b=E, c=E), Raises={"b"}, MaxCrashes=2, MaxFaults=0),
            spec="FairSpec", invariants=["Complete", "Recoverable"],
            properties=["Refines", "Ends", "Served"], view="View")] if ctx.thorough else [])


def explore(ctx, confs, faults, n_each, more=()):
    jobs = []
    for label, job, raises, crashes, sim in confs:
        kw = dict(spec="FairSpec", properties=["Refines", "Ends", "Served"]) if sim is None else \
            dict(spec="Spec", simulate=ctx.pick(sim, 4000), depth=60, seed=ctx.seed)
        jobs.append(lambda job=job, raises=raises, crashes=crashes, kw=kw: ctx.tlc(
            "PureConc", constants=dict(Procs=set(job), Job=job, Raises=set(raises), MaxCrashes=crashes, MaxFaults=faults),
            invariants=["Complete", "Recoverable"], view="View", action_constraint="Emit", **kw))
    jobs += more
    todo = {v: [] for v in VARIANTS}
    for (label, job, raises, _, sim), res in zip(confs, ctx.parallel(jobs)):
        if sim:
            bs = tla.split_simulation(res.lines)
        else:
            g = tla.Graph(res)
            bs = g.cover(ctx.rng, 60) + g.walks(ctx.rng, ctx.pick(20, 1500), 60)
        bs = ctx.some(bs, n_each)
        for b in bs:
            v = ctx.rng.choice(list(VARIANTS))
            todo[v].append((ctx.rng.random(), job, raises, VARIANTS[v],
                            [{k: e[k] for k in e if k != "o"} for e in b["events"]]))
    everything = [(v, x) for v in todo for x in todo[v]]
    chunks = [everything[i:i + 6] for i in range(0, len(everything), 6)]
    results = pool.run_all(lambda c: perform([x for _, x in c]), chunks, timeout=240)
    runs = {v: [] for v in VARIANTS}
    for c, (status, res) in zip(chunks, results):
        if status != "ok":
            ctx.violation(pool.last_line(res), dict(schedules=c, result=res))
            continue
        for (v, x), (msg, trace) in zip(c, res):
            if msg:
                ctx.violation(f"{v}, {x[1]}: {msg}", dict(schedule=x, trace=trace))
            runs[v].append((x, trace))
    for v in VARIANTS:
        slots = [f"{n}-{d}" for n in VARIANTS[v]["names"] for d in VARIANTS[v]["disks"]]
        if runs[v]:
            ctx.sample(dict(driver=v, schedule=runs[v][0][0], trace=runs[v][0][1]))
            st.validate(ctx, runs[v], slots, {"a", "b", "c", "d", "z", "look"}, v)
