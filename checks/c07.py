"""C07: in a write-once dictionary the first value written to a key stays."""
import json
import pickle
import random
import threading
from collections import OrderedDict
from datetime import datetime, timezone

from vf import env, pool, simdict, tla
from vf.simdict import SimDict


class Broken(OSError):
    pass


def values(rng):
    """Pairs of different values, of one kind each."""
    import numpy as np
    import pandas as pd
    nan = float("nan")
    return rng.choice([
        ("a", "b"), (1, 2), (0, False), (None, False), ("", None), ([1, [2]], [1, [3]]), ({"a": 1}, {"a": 2}),
        ((1, 2), [1, 2]), (1, 1.0), ({1, 2}, {1, 3}), (b"a", b"b"), (nan, 1.0), ([nan, 1], [nan, 2]),
        (np.array([1, nan]), np.array([2, nan])), (np.zeros((2, 2)), np.zeros(4)),
        (pd.DataFrame({"a": [1, 2]}), pd.DataFrame({"a": [1, 3]})), ([pd.Series([1.5])], [pd.Series([2.5])]),
        ({"x": {"y": [1, 2, 3]}}, {"x": {"y": [1, 2]}}), ("x" * 5000, "x" * 4999 + "y"), (True, 1),
        # what differs in little, or only in what is easily overlooked
        ({"__a": 1}, {"__a": 2}), ({"__a": 1}, {}), (Private(1), Private(2)), (len, sum), (Private, Broken),
        (pd.Series([1], name="a"), pd.Series([1], name="b")), (pd.Index([1]), pd.Index([1], name="i")),
        (pd.DataFrame({"a": [1]}), pd.DataFrame({"a": [1]}, index=pd.Index([0], name="i"))),
        (pd.DataFrame({"a": [1]}), pd.DataFrame({"a": [1]}, columns=pd.Index(["a"], name="i"))),
        (datetime(2024, 1, 2), datetime(2024, 1, 2, tzinfo=timezone.utc)), (datetime(2024, 1, 2), datetime(2024, 1, 2, fold=0, microsecond=1)),
        (OrderedDict(a=1, b=2), OrderedDict(b=2, a=1)), (OrderedDict(a=[1]), OrderedDict(a=[2])), (OrderedDict(a=1), {"a": 1}),
        (np.array(["a", "b"]), np.array(["a", "c"])), (np.array(["a", None]), np.array(["b", None])),
        (np.array([(1, 2)], dtype="i8,i8"), np.array([(1, 3)], dtype="i8,i8")), (np.array([1, 2]), np.array([1, 2], dtype="i4")),
        (10 ** 40, 10 ** 40 + 1), (.3, .1 + .2), (frozenset({1}), {1}), ([[[[1]]]], [[[[2]]]]),
        (list(range(3000)), list(range(2999)) + [0]), ({k: k for k in range(500)}, {k: k - (k == 250) for k in range(500)})])


def twins(a, rng):
    """The value, and others equal to it that share or lay out their parts differently."""
    import numpy as np
    out = [a, pickle.loads(pickle.dumps(a))]
    if type(a) is np.ndarray and a.ndim:
        twice = np.repeat(a, 2, axis=-1)
        out += [np.asfortranarray(a), twice[..., ::2]]
    elif type(a) is dict:
        out.append(dict(reversed(a.items())))
    elif type(a) is set:
        out.append(set(reversed(list(a))))
    return out


class Private:
    def __init__(self, x):
        self.__dict__["__x"] = x


KEYS = [("k",), ("a", "b"), ("one", "two", "three"), ("x.y-z", "_"), ("k1",)]


class Runner:
    """Performs a schedule: each writer is a thread that stops before every storage
    operation, until it is its turn."""

    def __init__(self, seed, p):
        from pythagoras._800_persidict_extensions.first_entry_dict import FirstEntryDict
        self.rng = random.Random(seed)
        self.backend = SimDict.reset()
        self.backend.before, self.backend.after = self.before, self.after
        a, b = values(self.rng)
        one = [1]       # parts may be one object, or not
        wrap = self.rng.choice([None, None, lambda x, y: [x, one, y], lambda x, y: {"k": (x, [y, one])},
                                lambda x, y: OrderedDict(k=[one, x, y])])
        self.values = {}
        for k, v in (("a", a), ("b", b)):
            self.values[k] = twins(v, self.rng) if wrap is None else \
                [wrap(x, y) for x in twins(v, self.rng) for y in ([1], one)]
        names = self.rng.sample(KEYS, 2)
        self.keys = dict(zip(("k1", "k2"), names))
        self.digest = self.rng.choice([0, 8])
        self.type = self.rng.choice(["pkl", "pkl", "json"]) if type(a) in (int, str) and wrap is None else "pkl"
        p = {0: self.rng.choice([None, 0]), 1: 0.5, 2: self.rng.choice([1, 1.0])}[p]

        def new():
            d = FirstEntryDict(SimDict("d", file_type=self.type, immutable_items=True,
                                       digest_len=self.digest), p)
            return d
        self.shared = new() if self.rng.random() < .3 else None
        self.dicts = {w: self.shared or new() for w in "uvw"}
        self.paths = {self.dicts["u"]._wrapped_dict._full(self.dicts["u"]._wrapped_dict._path(v)): k
                      for k, v in self.keys.items()}
        d = self.dicts["u"]._wrapped_dict
        self.bytes = {k: {d._dumps(v) for v in vs} | {d._dumps(d._loads(d._dumps(v))) for v in vs} for k, vs in self.values.items()}
        self.go = {w: threading.Semaphore(0) for w in "uvw"}
        self.stopped = {w: threading.Semaphore(0) for w in "uvw"}
        self.state, self.ops, self.fault = {}, {}, {}
        self.trace, self.job = [], {}
        env.clock.start(on_sleep=lambda s: None)

    def me(self):
        n = threading.current_thread().name
        return n[7:] if n.startswith("writer-") else None

    def before(self, op, path):
        w = self.me()
        if w is None:
            return
        self.stopped[w].release()
        self.go[w].acquire()
        kinds = self.ops[w]
        kinds[op] = kinds.get(op, 0) + 1
        f = self.fault.pop(w, "no")
        self.late = not (op in ("has", "write") and kinds[op] == 1)
        if op == "write" and f != "before" and path not in self.backend.blobs:
            self.trace.append(dict(a="Write", w=w, key=self.paths.get(path, path), v=self.job[w]))
            self.writing = w
        if f == "before" or f == "after" and op not in ("write",):
            self.trace.append(dict(a="Fault", w=w, late=self.late))
            raise Broken("injected")
        self.after_fault = f

    def after(self, op, path, result=None):
        if op == "write":
            blob = self.backend.blobs[path][0]
            v = [k for k, b in self.bytes.items() if blob in b]
            self.trace[-1]["v"] = v[0] if v else "other"
        if self.me() and getattr(self, "after_fault", "no") == "after":
            self.after_fault = "no"
            if op == "write":
                self.trace[-1].update(a="WriteFault", late=self.late)
                raise Broken("injected")
            if op == "refuse":
                return

    def begin(self, w, k, v):
        self.trace.append(dict(a="Start", w=w, key=k, v=v))
        self.ops[w], self.job[w] = {}, v

        def body():
            how = "error"
            try:
                r = self.rng.random()
                d, key, val = self.dicts[w], self.keys[k], self.rng.choice(self.values[v])
                if r < .2:
                    d.update({env.import_pythagoras() and SafeKey(key): val})
                else:
                    d[key if len(key) > 1 or r < .6 else key[0]] = val
                how = "ok"
            except Exception:
                pass
            self.trace.append(dict(a="End", w=w, how=how))
            self.state[w] = "done"
            self.stopped[w].release()
        self.state[w] = "running"
        threading.Thread(target=body, name="writer-" + w, daemon=True).start()
        self.wait(w)

    def wait(self, w):
        if not self.stopped[w].acquire(timeout=30):
            raise RuntimeError("a writer hangs")

    def advance(self, w, fault="no"):
        if self.state.get(w) != "running":
            return
        self.fault[w] = fault
        self.go[w].release()
        self.wait(w)

    def run(self, events):
        for e in events:
            w = e["w"]
            if e["a"] == "Start":
                while self.state.get(w) == "running":
                    self.advance(w)
                self.begin(w, e["key"], e["v"])
            elif e["a"] == "Op":
                self.advance(w, e["fault"])
        while "running" in self.state.values():
            for w in "uvw":
                self.advance(w)
        msg = self.look()
        return msg, self.trace

    def look(self):
        """What can be read afterwards, and what else must not change anything."""
        d = self.dicts["u"]
        inside = []
        for k, key in self.keys.items():
            if (key in d) != any(self.paths[p] == k for p in self.backend.blobs):
                return f"{k} in d is {key in d}"
            if key in d:
                got = d._dumps(d[key])
                v = [n for n, b in self.bytes.items() if got in b]
                self.trace.append(dict(a="Read", key=k, v=v[0] if v else "other"))
                inside.append(key)
            else:
                self.trace.append(dict(a="Read", key=k, v="none"))
                try:
                    d[key]
                    return "reading a key that is not there gives a value"
                except KeyError:
                    pass
        if sorted(tuple(k) for k in d.keys()) != sorted(inside) or len(d) != len(inside) \
                or len(list(d.values())) != len(inside) or len(list(d.items())) != len(inside):
            return f"the keys are {list(d.keys())}, len is {len(d)}, and written were {inside}"
        was = dict(self.backend.blobs)
        for key in inside:
            for how in (lambda: d.__delitem__(key), lambda: d.pop(key), lambda: d.clear(),
                        lambda: d.delete_if_exists(key)):
                try:
                    how()
                except Exception:
                    pass
            if d._dumps(d.setdefault(key, "new")) != d._dumps(d[key]):
                return "setdefault gives another value"
        if {k: v[0] for k, v in was.items()} != {k: v[0] for k, v in self.backend.blobs.items()}:
            return "deleting is possible"


def SafeKey(key):
    from persidict import SafeStrTuple
    return SafeStrTuple(*key)


def perform(job):
    out = []
    for seed, p, events in job:
        try:
            r = Runner(seed, p)
            out.append(r.run(events))
        except Exception as x:
            out.append((f"{type(x).__name__}: {x}", None))
        finally:
            env.clock.stop()
    return out


def validate(ctx, p, runs, label):
    """runs: [(schedule, trace)]. Reports those that are not behaviours of FirstEntry."""
    traces = [t for _, t in runs]
    far = {}

    def seen(x):
        far[x["t"]] = max(far.get(x["t"], 0), x["i"])
    # the Progress of each step tells how far a trace can be followed
    ctx.tlc("FirstEntryTrace", constants=dict(Keys={"k1", "k2"}, Values={"a", "b"},
                                              Writers=set("uvw"), P=p),
            init="TInit", next="TNext", action_constraint="Progress", on_line=seen,
            files={"traces.json": json.dumps(traces)}, properties=["FirstStays"])
    for n, (schedule, t) in enumerate(runs):
        got = far.get(n + 1, 1)
        ctx.count("traces_validated_against_impl")
        ctx.count("impl_steps", len(t))
        if got <= len(t):
            ctx.violation(f"{label}: after {t[:got - 1]} the code does {t[got - 1]}",
                          dict(schedule=schedule, trace=t, step=got, P=p))


def often(_):
    """Checks with probability one half: as often as not."""
    from pythagoras._800_persidict_extensions.first_entry_dict import FirstEntryDict
    SimDict.reset()
    env.clock.start(on_sleep=lambda s: None)
    out = {}
    for p in (0.5, 0.1, 0.9):
        d = FirstEntryDict(SimDict("d", immutable_items=True), p)
        d["k"] = 1
        n = 0
        for i in range(600):
            try:
                d["k"] = 2
            except AssertionError:
                n += 1
        out[p] = n
        for i in range(50):
            d["k"] = 1
        assert d["k"] == 1
    try:
        d = FirstEntryDict(SimDict("m", immutable_items=False), 0)
    except Exception:
        return out
    d["k"] = 1
    d["k"] = 2
    assert d["k"] == 1, "over a mutable dictionary, the first value does not stay"
    return out


def run(ctx):
    inv = dict(invariants=["Stuck"], properties=["Refines", "FirstStays"])
    base = dict(Keys={"k1"}, Values={"a", "b"})
    two = dict(Writers={"u", "v"})
    jobs, labels = [], []
    for p in (0, 1, 2):
        def add(label, consts, p=p, **kw):
            labels.append((label, p, kw.get("simulate") is not None))
            jobs.append(lambda: ctx.tlc("FirstEntryWriters", constants=base | dict(P=p) | consts,
                                        view="View", action_constraint="Emit", **(inv | kw)))
        add("one writer", dict(Writers={"u"}, MaxFaults=3, MaxOps=3), spec="Spec",
            properties=["Refines", "FirstStays", "Ends"])
        add("two writers", dict(two, MaxFaults=ctx.pick(1, 2), MaxOps=2), spec="Spec")
        add("three writers", dict(Writers=set("uvw"), Keys={"k1", "k2"}, MaxFaults=2, MaxOps=5),
            simulate=ctx.pick(150, 4000), depth=60, seed=ctx.seed * 7 + p)
    for (label, p, sim), res in zip(labels, ctx.parallel(jobs)):
        if sim:
            bs = tla.split_simulation(res.lines)
        else:
            g = tla.Graph(res)
            bs = g.cover(ctx.rng, 40) + g.walks(ctx.rng, ctx.pick(150, 5000), 60)
            bs = ctx.some(bs, ctx.pick(1200, 60000))
        todo = [(ctx.rng.random(), p, b["events"]) for b in bs]
        groups = [todo[i:i + 25] for i in range(0, len(todo), 25)]
        runs = []
        for g, (st, res) in zip(groups, pool.run_all(perform, groups, timeout=200)):
            if st != "ok":
                ctx.violation(f"{label}: {pool.last_line(res)}", dict(schedules=g, result=res))
                continue
            for (seed, _, events), (msg, trace) in zip(g, res):
                if msg:
                    ctx.violation(f"{label}: {msg}", dict(seed=seed, schedule=events, trace=trace))
                if trace:
                    runs.append((events, trace))
        ctx.sample(dict(driver=label, P=p, schedule=todo[0][2], trace=runs[0][1] if runs else None))
        validate(ctx, p, runs, label + f", checks {('never', 'sometimes', 'always')[p]}")
    st, res = pool.run_all(often, [0], timeout=60)[0]
    if st != "ok":
        ctx.violation("checks by chance: " + pool.last_line(res), res)
    else:
        for p, n in res.items():
            if abs(n - 600 * p) > 80:     # about seven standard deviations
                ctx.violation(f"with probability {p}, {n} of 600 assignments are checked", res)
