"""The driver of every check:  python -m vf.check C01"""
from . import env  # first: sets up paths, HOME and time
import importlib
import json
import os
import random
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import pool, tla

OUT = env.VERIF + "/out"


class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.seed, self.tier, self.thorough = env.SEED, env.TIER, env.THOROUGH
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        impl_steps=0, samples=[], specs=[])
        self.assumptions = []
        self.violations = []
        self.level = "model_checking"
        self.known = _known(pid)
        self.known_seen = set()
        self.t0 = time.monotonic()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- the specification ---
    def tlc(self, module, **kw):
        res = tla.run(module, **kw)
        self.cov["states"] += res.distinct or res.generated
        self.cov["transitions"] += res.generated
        self.cov["specs"].append(dict(
            module=module, distinct=res.distinct, generated=res.generated, depth=res.depth,
            constants={k: (sorted(v) if isinstance(v, (set, frozenset)) else v)
                       for k, v in (kw.get("constants") or {}).items()},
            checked=list(kw.get("invariants", ())) + list(kw.get("properties", ())),
            wall_s=round(res.wall, 2)))
        return res

    def parallel(self, jobs):
        """Results of jobs (functions without parameters), run at the same time."""
        with ThreadPoolExecutor(8) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # --- the implementation ---
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def some(self, xs, n):
        """n of xs at random (all, when there are no more), in a fixed order."""
        if len(xs) <= n:
            return xs
        self.cov["not_run"] = self.cov.get("not_run", 0) + len(xs) - n
        return [xs[i] for i in sorted(self.rng.sample(range(len(xs)), n))]

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, detail, key=None):
        """Report that the code breaks the property. `key` identifies the failing case."""
        if key is not None and key in self.known:
            self.known_seen.add(key)
            return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        os.makedirs(OUT, exist_ok=True)
        path = f"{OUT}/{self.id}-{len(self.violations)}.json"
        with open(path, "w") as f:
            json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, what=what,
                           detail=detail), f, indent=1, default=repr)
        self.violations.append(path)
        print(f"VIOLATION property={self.id} replay={path}", flush=True)
        print(f"  {what}"[:2000], flush=True)

    def replay(self, behaviours, make_driver, timeout=60, label="", what="behaviour",
               max_report=3, isolate=True, chunk=1):
        """Step the code through behaviours of the specification, comparing after each
        step what the specification says is observed with what is."""
        behaviours = list(behaviours)
        groups = [behaviours[i:i + chunk] for i in range(0, len(behaviours), chunk)]

        def one(group):
            return [_step_through(b, make_driver) for b in group]

        bad = [0]

        def enough(status, res):
            if status != "ok" or any(r[0] != "ok" for r in res):
                bad[0] += 1
            return bad[0] >= max_report
        results = pool.run_all(one, groups, timeout=timeout, stop_after=enough, isolate=isolate)
        for g, r in zip(groups, results):
            if r is None:
                continue
            status, res = r
            if status != "ok":
                self.violation(f"{label}: a {what} the specification allows ended with: "
                               + pool.last_line(res),
                               dict(behaviours=g, result=res, driver=label))
                continue
            for b, x in zip(g, res):
                self.cov["traces_validated_against_impl"] += 1
                self.cov["impl_steps"] += x[1]
                if x[0] != "ok":
                    self.violation(f"{label}: {x[2]}", dict(
                        behaviour=b, failed_at=x[1], expected=x[3], observed=x[4], driver=label,
                        trace=x[5]))
        for b in behaviours[:1]:
            self.sample(dict(driver=label, behaviour=b))

    def finish(self):
        for key in self.known:
            if key in self.known_seen:
                print(f"KNOWN-FINDING: property={self.id} {self.known[key]}", flush=True)
            else:
                print(f"note: known finding {key!r} of {self.id} was not observed in this run")
        os.makedirs(env.VERIF + "/evidence", exist_ok=True)
        ev = dict(property=self.id, tier="thorough" if self.thorough else "quick",
                  seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - self.t0, 2),
                  violations=len(self.violations))
        with open(f"{env.VERIF}/evidence/{self.id}.json", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        c = self.cov
        print(f"{self.id} [{self.tier}, seed {self.seed}] states={c.get('states')} "
              f"transitions={c.get('transitions')} traces={c.get('traces_validated_against_impl')} "
              f"impl_steps={c.get('impl_steps')} violations={len(self.violations)} "
              f"in {ev['wall_s']} s", flush=True)
        return 1 if self.violations else 0


def norm(v):
    """As JSON would have it, so that expectations and observations compare."""
    return json.loads(json.dumps(v, sort_keys=True, default=repr))


def _same(want, got, key):
    if key.endswith("_s"):
        return _bags(want) == _bags(got)
    return want == got


def _bags(v):
    """v, with the order of its lists taken away."""
    if isinstance(v, list):
        return sorted(map(tla.canon, map(_bags, v)))
    if isinstance(v, dict):
        return {k: _bags(x) for k, x in v.items()}
    return v


class Mismatch(BaseException):
    """Raised inside a nested driver, to leave it."""


def _compare(n, e, got):
    """None, or what differs."""
    want, got = norm(e["o"]), norm(got)
    for k in want:
        if not _same(want[k], got.get(k, "<nothing>"), k):
            return (f"step {n} {_show(e)}: {k} should be {want[k]!r}, is "
                    f"{got.get(k, '<nothing>')!r}", want, got)


def _step_through(b, make_driver):
    """("ok", steps) or (kind, step, text, expected, observed, events)"""
    events = b["events"]
    try:
        d = make_driver(b["init"])
    except BaseException:
        return ("bad", 0, "setting the scenario up failed: " + _last(), None,
                traceback.format_exc(), [])
    n = 0
    if hasattr(d, "run"):       # a nested driver takes the events itself
        return _run_nested(d, events)
    for e in events:
        n += 1
        try:
            got = d.step(e)
        except BaseException:
            return ("bad", n, f"step {n} {_show(e)} raised: {_last()}", e.get("o"),
                    traceback.format_exc(), events[:n])
        diff = _compare(n, e, got)
        if diff:
            return ("bad", n, diff[0], diff[1], diff[2], events[:n])
    return _end(d, n, events)


def _end(d, n, events):
    end = getattr(d, "end", None)
    if end is not None:
        try:
            msg = end()
        except BaseException:
            msg = "at the end: " + _last()
        if msg:
            return ("bad", n, msg, None, None, events)
    return ("ok", n)


def _run_nested(d, events):
    """Events that open and close blocks and calls are performed inside each other:
    d.run(feed) asks feed.next() for the next event and tells feed.done(obs)."""
    feed = Feed(events)
    try:
        d.run(feed)
        error = None
    except Mismatch:
        error = None
    except BaseException:
        error = _last(), traceback.format_exc()
    if feed.bad:
        return ("bad", feed.n, feed.bad[0], feed.bad[1], feed.bad[2], events[:feed.n])
    if feed.over:
        return _end(d, feed.n, events)
    e = events[feed.n - 1] if feed.n else {}
    return ("bad", feed.n, f"after step {feed.n} {_show(e)}: "
            + (error[0] if error else "the code went another way"), e.get("o"),
            error and error[1], events[:feed.n])


class Feed:
    def __init__(self, events):
        self.events, self.n, self.bad, self.over, self.open = events, 0, None, False, False

    def next(self, *expected):
        if self.bad or self.over:
            raise Mismatch
        if self.n == len(self.events):
            self.over = True
            raise Mismatch
        assert not self.open, "the previous step has not been completed"
        e = self.events[self.n]
        self.n += 1
        self.open = True
        if expected and e["a"] not in expected:
            self.bad = (f"step {self.n} should be {_show(e)}, but the code is at "
                        f"{' or '.join(expected)}", e["o"], None)
            raise Mismatch
        return e

    def fail(self, text, detail=None):
        if not self.bad and not self.over:
            self.bad = (f"step {self.n} {_show(self.events[self.n - 1])}: {text}",
                        self.events[self.n - 1]["o"], detail)
        raise Mismatch

    def done(self, obs):
        if self.bad or self.over:
            raise Mismatch
        self.open = False
        self.bad = _compare(self.n, self.events[self.n - 1], obs)
        if self.bad:
            raise Mismatch


def _last():
    t, v, _ = sys.exc_info()
    return f"{t.__name__}: {v}"[:400]


def _show(e):
    return json.dumps({k: v for k, v in e.items() if k != "o"})


def _known(pid):
    out = {}
    p = env.VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                f = line.split(" ", 3)
                if f[1] == f"property={pid}":
                    out[f[2].removeprefix("key=")] = f[3]
    return out


def main(pid):
    ctx = Ctx(pid)
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        try:
            env.import_pythagoras()
        except Exception:
            ctx.violation("the code cannot be imported", traceback.format_exc())
            return ctx.finish()
        mod.run(ctx)
        return ctx.finish()
    except tla.TLCError as e:
        print(f"error: {e}", file=sys.stderr)
        return ctx.finish() or 3
    except BaseException:
        traceback.print_exc()
        return ctx.finish() or 2


if __name__ == "__main__":
    rc = main(sys.argv[1])
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
