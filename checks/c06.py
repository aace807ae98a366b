"""C06: a stored value can always be read back, from any portal that has it."""
import copy
import datetime
import pickle
import random
import shutil
import tempfile

from vf import env, simdict, tla
from vf.simdict import SimDict


def candidates():
    import numpy as np
    import pandas as pd
    return [None, False, 0, "", [], {}, (), 0.0, b"", "text", "äöü\n\t'", 12345678901234567890, -1.5, float("nan"),
            [1, [2, [3]]], {"a": {"b": (1, 2)}}, {1: "x", None: [True]}, {1, 2, 3}, frozenset("ab"), 1 + 2j,
            np.arange(6).reshape(2, 3), np.array([]), np.float64(2.5), pd.DataFrame({"a": [1, 2], "b": ["x", None]}),
            pd.Series([1.5, 2.5], index=["p", "q"]), datetime.date(2024, 2, 29), range(5), "x" * 10000, len, int,
            ValueError("an exception"), slice(1, 2), bytearray(b"ab"), list(range(1000))]


def same(a, b):
    import numpy as np
    import pandas as pd
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, float) and a != a:
        return b != b
    if isinstance(a, Exception):
        return a.args == b.args
    return a == b


class Down(OSError):
    pass


class Stores:
    """Portal objects of three classes, over disks in memory (or real directories)."""

    def __init__(self, init):
        import pythagoras as p
        self.rng = random.Random(init["n"])
        self.backend = SimDict.reset()
        self.backend.before = self.before
        self.p = p
        self.down = set()
        self.files = self.rng.random() < .15 and not init["outage"]
        self.tmp = tempfile.mkdtemp() if self.files else None
        self.cls = {k: self.rng.choice([p.DataPortal, p.PureCodePortal]) for k in "pqr"}
        self.which_values = self.rng.sample(range(len(candidates())), 2)
        self.nested = self.rng.random() < .1
        self.values = self.make_values()
        self.check = {k: self.rng.choice([None, 0, 0.5, 1]) for k in "pqr"}
        self.portals, self.addr = {}, {}
        # what a text or a pickle of the addresses says
        scratch = p.DataPortal(SimDict("scratch"))
        self.text, self.pickled = {}, {}
        for k, v in self.values.items():
            a = p.ValueAddr(v, portal=scratch)
            self.text[k] = (a.prefix, a.hash_signature)
            self.pickled[k] = pickle.dumps(a)
        self.backend.blobs.clear()
        self.forget()
        self.stack = []

    def make_values(self):
        a, b = (candidates()[i] for i in self.which_values)
        return dict(v1=a, v2=[a] if self.nested else b)

    def before(self, op, path):
        if path.split("/")[0] in self.down:
            raise Down("the disk cannot be reached")

    def forget(self):
        from pythagoras._010_basic_portals.foundation import BasicPortal
        for p in self.portals.values():
            p._clear() if self.rng.random() < .5 else None
        BasicPortal._clear_all()
        self.portals, self.addr, self.stack = {}, {}, []

    def dict(self, disk):
        from persidict import FileDirDict
        return FileDirDict(f"{self.tmp}/{disk}") if self.files else SimDict(disk)

    def step(self, e):
        x = getattr(self, "do_" + e["a"])(e) or {}
        return x | dict(held={d: self.on_disk(d) for d in e["o"]["held"]})

    def on_disk(self, d):
        down, self.down = self.down, set()
        try:
            root = self.dict(d)
            store = type(root)(**(root.get_params() | dict(digest_len=0))).get_subdict("value_store")
            params = store.get_params() | dict(digest_len=0, immutable_items=True, file_type="pkl")
            store = type(store)(**params)
            out = []
            # read the way a new session would, touching nothing
            from pythagoras._010_basic_portals.foundation import BasicPortal
            for k in sorted(self.text):
                if self.text[k] in store:
                    got = store[self.text[k]]
                    out.append(k if same(got, self.values[k]) else "wrong value for " + k)
            if len(store) != len(out):
                out.append(f"{len(store)} items")
            return sorted(out)
        finally:
            self.down = down

    def do_Open(self, e):
        d = {"p": "d1", "q": "d2", "r": "d1"}[e["p"]] if e["p"] != "r" or "d3" not in e["o"]["held"] else "d3"
        self.portals[e["p"]] = self.cls[e["p"]](self.dict(d), p_consistency_checks=self.check[e["p"]])

    def do_Enter(self, e):
        p = self.portals[e["p"]]
        p.__enter__()
        self.stack.append(p)

    def do_Leave(self, e):
        self.stack.pop().__exit__(None, None, None)

    def kw(self, e):
        return {} if e["p"] == "none" else dict(portal=self.portals[e["p"]])

    def which(self, portal):
        return {id(v): k for k, v in self.portals.items()}.get(id(portal), "another")

    def do_Make(self, e):
        v = self.values[e["v"]]
        if self.rng.random() < .5:
            v = self.make_values()[e["v"]]
        a = self.addr[e["x"]] = self.p.ValueAddr(v, **self.kw(e))
        if (a.prefix, a.hash_signature) != self.text[e["v"]]:
            raise RuntimeError(f"the address changed: {a}, was {self.text[e['v']]}")
        return dict(portal=self.which(a.portal))

    def restore(self, e, check):
        prefix, sign = self.text[e["v"]]
        kw = {} if check and self.rng.random() < .5 else dict(assert_readiness=check)
        return self.p.ValueAddr.from_strings(prefix=prefix, hash_signature=sign, **kw, **self.kw(e))

    def do_Revive(self, e):
        try:
            self.addr[e["x"]] = self.restore(e, e["check"])
        except Exception:
            return dict(ok=False)
        return dict(ok=True)

    def do_Unpickle(self, e):
        self.addr[e["x"]] = pickle.loads(self.pickled[e["v"]])

    def do_Copy(self, e):
        self.addr[e["x"]] = copy.copy(self.addr[e["y"]])
        if self.addr[e["x"]] != self.addr[e["y"]]:
            raise RuntimeError("the copy of an address is another address")
        return dict(portal=self.which(self.addr[e["x"]].portal))

    def do_Drop(self, e):
        del self.addr[e["x"]]

    def do_Convert(self, e):
        y = self.addr[e["y"]]
        try:
            a = self.p.ValueAddr(y, portal=self.portals[e["p"]])
        except Exception:
            if not e["may_fail"]:
                raise
            a = self.p.ValueAddr.from_strings(prefix=y.prefix, hash_signature=y.hash_signature,
                                              assert_readiness=False, portal=self.portals[e["p"]])
        if a != y or a.portal is not self.portals[e["p"]]:
            raise RuntimeError(f"{a} in {self.which(a.portal)}")
        self.addr[e["x"]] = a

    def do_Ready(self, e):
        a = self.addr[e["x"]]
        return dict(ready=a.ready)

    def do_Get(self, e):
        a = self.addr[e["x"]]
        try:
            if self.rng.random() < .8:
                got = a.get()
            else:
                got = a.get_typed(object)
        except Exception:
            return dict(got="error")
        return dict(got=next((k for k, v in self.values.items() if same(got, v)), "another value"))

    def do_Outage(self, e):
        self.down = {e["d"]}

    def do_Repair(self, e):
        self.down = set()

    def do_Restart(self, e):
        self.forget()
        if e["d"] != "none":
            prefix, sign = self.text[e["v"]]
            if self.files:
                import glob
                import os
                for f in glob.glob(f"{self.tmp}/{e['d']}/value_store/{prefix}/{sign}*"):
                    os.remove(f)
            else:
                for f in [f for f in self.backend.blobs
                          if f.startswith(f"{e['d']}/value_store/{prefix}/{sign}")]:
                    del self.backend.blobs[f]

    def end(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


def run(ctx):
    on = dict(view="View", action_constraint="Emit", invariants=["TypeOK"],
              properties=["Kept", "NoInvention", "Brought"])
    three = dict(p="d1", q="d2", r="d3")
    shared = dict(p="d1", q="d2", r="d1")
    small, *sims = ctx.parallel(
        [lambda: ctx.tlc("ValueStore", constants=dict(
            Portals=set("pq"), Disk=dict(p="d1", q="d2"), Values={"v1"}, Addrs={"x", "y"}, MaxDepth=ctx.pick(1, 2),
            MaxSessions=2), timeout=900, **on)]
        + [lambda k=k, d=d: ctx.tlc("ValueStore", constants=dict(
            Portals=set("pqr"), Disk=d, Values={"v1", "v2"}, Addrs={"x", "y", "z"}, MaxDepth=3, MaxSessions=4),
            simulate=ctx.pick(120, 3000), depth=ctx.pick(50, 80), seed=ctx.seed * 10 + k,
            **(on | dict(properties=[]))) for k, d in enumerate([three, shared, three])])
    g = tla.Graph(small)
    n = 0
    for label, bs, limit in (
            ("two portals", g.cover(ctx.rng, 25), ctx.pick(2500, 10 ** 6)),
            ("three portals", sum((tla.split_simulation(r.lines) for r in sims), []), 10 ** 6)):
        bs = ctx.some(bs, limit)
        for b in bs:
            n += 1
            b["init"] = dict(n=n + 100000 * ctx.seed, outage="Outage" in {e["a"] for e in b["events"]})
        ctx.replay(bs, Stores, label=label, chunk=20, timeout=200)
