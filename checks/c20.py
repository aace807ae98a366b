"""C20: waiting for a result."""
import json
import pickle
import random

from vf import env, pool, probe
from vf.simdict import SimDict
from .world import World

SRC = """def f(x):
    import vprobe
    return vprobe.body(x)
"""


class Waiting(World):
    """Waits for results that "another process" publishes at a given moment: after so
    many milliseconds of sleep, or before the n-th operation on the storage."""

    def __init__(self, job):
        super().__init__(job["n"])
        self.job = job
        self.value = self.rng.choice([["r", 1], None, False, 0, "", {"a": 1}, [None]])
        self.arg = self.rng.choice([1, None, "x", [1, 2]])
        self.runs = 0
        probe.install(body=self.body)
        # what a run leaves on a disk
        self.where = job["where"]
        self.begin()
        target = "p" if self.where == "own" else "q"
        self.fns[target](x=self.arg)
        self.blobs = dict(self.backend.blobs)
        self.forget()
        self.backend = SimDict.reset()
        self.begin()
        self.backend.before = self.before
        self.trace, self.ops, self.pub, self.in_get = [], 0, False, False
        self.elapsed = 0.0
        env.clock.start(self.T0 + self.rng.random() * 100, on_sleep=self.sleep)
        self.t0 = env.clock.t

    def begin(self):
        self.portal("p", "d1", p_consistency_checks=self.rng.choice([None, 0, 1]))
        self.portal("q", "d2")
        self.fns = {k: self.p.pure(portal=self.portals[k])(SRC) for k in "pq"}

    def body(self, x):
        self.runs += 1
        return self.value

    def publish(self):
        if not self.pub:
            self.pub = True
            self.backend.blobs = {**self.blobs, **self.backend.blobs}
            self.trace.append(dict(a="Publish"))

    def before(self, op, path):
        if self.in_get:
            self.ops += 1
            if self.ops == self.job.get("op"):
                self.publish()

    def request(self):
        return any("/execution_requests/" in f and f.startswith("d1/") for f in self.backend.blobs)

    def ms(self):
        return round((env.clock.t - self.t0) * 1000)

    def sleep(self, s):
        if len([e for e in self.trace if e["a"] == "Sleep"]) > 40:
            raise RuntimeError("waits for ever")
        d = round(s * 1000)
        self.trace.append(dict(a="Sleep", d=d, req=self.request()))
        now, t = self.ms(), self.job.get("at")
        # a real clock oversleeps a little
        env.clock.t += s + self.job["late"]
        then = self.ms()
        if t is not None and not self.pub and now <= t <= then:
            self.trace.append(dict(a="Pass", d=t - now))
            self.publish()
            now = t
        self.trace.append(dict(a="Pass", d=then - now))
        self.trace.append(dict(a="Wake"))

    def run(self):
        job = self.job
        runs = self.runs
        addr = self.fns["p"].get_address(x=self.arg)
        if self.rng.random() < .5:
            prefix, sign = addr
            with self.portals["p"]:
                if self.rng.random() < .5:
                    addr = type(addr).from_strings(prefix=prefix, hash_signature=sign, assert_readiness=False)
                else:
                    addr = pickle.loads(pickle.dumps(addr))
        if job.get("asked"):
            addr.request_execution()
            self.trace.append(dict(a="Request", req=True))
        if job.get("op") == 0:
            self.publish()
        for n in range(job["times"]):
            timeout = job["timeout"]
            self.trace.append(dict(a="Call", timeout=-1 if timeout is None else round(timeout * 1000)))
            self.in_get = True
            try:
                got = addr.get(timeout) if timeout is not None or self.rng.random() < .5 else addr.get()
                if got != self.value or type(got) is not type(self.value):
                    return f"got {got!r} instead of {self.value!r}", self.trace
                self.trace.append(dict(a="Return", req=self.request()))
            except TimeoutError:
                self.trace.append(dict(a="Timeout", req=self.request()))
            self.in_get = False
            if self.stack():
                return f"portals are left entered: {self.stack()}", self.trace
        if self.runs != runs:
            return "getting the result ran the function", self.trace
        return None, self.trace


def perform(jobs):
    out = []
    for j in jobs:
        try:
            w = Waiting(j)
            out.append(w.run())
        except Exception as x:
            out.append((f"{type(x).__name__}: {x}", None))
        finally:
            env.clock.stop()
    return out


def bad_timeouts(_):
    w = Waiting(dict(n=1, where="own", timeout=0, late=0, times=1))
    try:
        w.fns["p"].get_address(x=w.arg).get(timeout=-1)
    except TimeoutError:
        return "a negative timeout is waited for"
    except Exception:
        return None
    return "a negative timeout is accepted"


def run(ctx):
    consts = dict(Slack=3, Jitter=500, Timeouts={-1, 0, 500, 1000, 2500, 4000, 9000}, Step=500,
                  Horizon=ctx.pick(30000, 60000))
    ctx.tlc("GetWait", constants=consts, spec="MSpec", constraint="Bound",
            invariants=["NoEarlyTimeout", "Overshoot", "NotStuck", "LateEnough"], properties=["Over"])
    r = ctx.rng
    jobs = []
    timeouts = [None, 0, 0.2, 0.9, 1, 1.1, 1.5, 2, 3, 3.3, 5, 7, 7.5, 10, 15.7, 31, 60, 100, 500]
    for where in ("own", "other"):
        for late in (0, 0.0005):
            for timeout in timeouts:
                for at in [None, 1, 500, 999, 1000, 1001, 1700, 2500, 3100, 6900, 12000, 29000, 59000, 99000,
                           400000]:
                    if at is None and timeout is None:
                        continue
                    jobs.append(dict(where=where, timeout=timeout, at=at))
                for op in range(0, 14):
                    jobs.append(dict(where=where, timeout=timeout if timeout is not None else 20, op=op))
                jobs.append(dict(where=where, timeout=timeout, at=int(10 ** r.uniform(1, 5.5))))
    for n, j in enumerate(jobs):
        j.update(n=n + 100000 * ctx.seed, late=r.choice([0, 0.0004]), asked=r.random() < .3,
                 times=r.choice([1, 1, 2]))
        if not j.get("at"):
            j.pop("at", None)
    jobs = ctx.some(jobs, ctx.pick(1200, 10 ** 6))
    groups = [jobs[i:i + 20] for i in range(0, len(jobs), 20)]
    runs = []
    for g, (st, res) in zip(groups, pool.run_all(perform, groups, timeout=200)):
        if st != "ok":
            ctx.violation("waiting: " + pool.last_line(res), dict(jobs=g, result=res))
            continue
        for j, (msg, trace) in zip(g, res):
            if msg:
                ctx.violation(f"waiting: {msg} ({j})", dict(job=j, trace=trace))
            if trace:
                runs.append((j, trace))
    ctx.sample(dict(job=runs[0][0], trace=runs[0][1]) if runs else None)
    far = {}

    def seen(x):
        far[x["t"]] = max(far.get(x["t"], 0), x["i"])
    ctx.tlc("GetWaitTrace", constants=consts, init="TInit", next="TNext", action_constraint="Progress",
            on_line=seen, files={"traces.json": json.dumps([t for _, t in runs])},
            invariants=["Overshoot"])
    for n, (j, t) in enumerate(runs):
        got = far.get(n + 1, 1)
        ctx.count("traces_validated_against_impl")
        ctx.count("impl_steps", len(t))
        if got <= len(t):
            ctx.violation(f"waiting ({j}): after {t[:got - 1]} the code does {t[got - 1]}",
                          dict(job=j, trace=t, step=got))
    st, msg = pool.run_all(bad_timeouts, [0])[0]
    if st != "ok" or msg:
        ctx.violation(pool.last_line(msg), msg)
