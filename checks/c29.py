"""C29: dictionaries of several file types over one place."""
import copy
import io
import os
import pickle
import random
import shutil
import tempfile

import joblib

from vf import env, tla
from vf.simdict import SimDict

KEYS = [("k",), ("a", "b"), ("one", "two", "three"), ("x.y-z", "_"), ("pkl",), ("k", "txt"), ("json.py",)]
TEXTS = ["", "hello", "two\nlines", "\u00e9\u4e2d", "{\"a\": 1}", "x" * 3000, "1"]
OTHERS = [0, 1.5, None, [1, [2]], {"a": 1}, True, [], {"k": [None]}]


class MultiDicts:
    def __init__(self, init):
        env.import_pythagoras()
        from persidict import FileDirDict
        rng = self.rng = random.Random(init["n"])
        self.backend = SimDict.reset()
        if rng.random() < .3:
            self.kind, self.place = FileDirDict, tempfile.mkdtemp(dir=env.SCRATCH)
        else:
            self.kind, self.place = SimDict, "d"
        self.keys = dict(zip(init["keys"], rng.sample(KEYS, len(init["keys"]))))
        self.values = dict(zip(init["texts"], rng.sample(TEXTS, len(init["texts"]))))
        self.values.update(zip(init["others"], rng.sample(OTHERS, len(init["others"]))))
        self.digest = rng.choice([None, 0, 8])
        self.objects, self.names = {}, init["objects"]

    def step(self, e):
        raised = False
        try:
            getattr(self, "do_" + e["a"])(e)
        except Exception as x:
            raised = True
            if e["a"] == "Refuse":
                from pythagoras._010_basic_portals.exceptions import NotAllowedError
                raised = isinstance(x, NotAllowedError) or repr(x)
        return dict(raised=raised, parts={o: self.look(o) for o in self.names})

    def shared(self, e=None):
        r = dict(base_dir=self.place)
        if self.digest is not None:
            r["digest_len"] = self.digest
        if e and e["shared"] != "unset":
            r["immutable_items"] = e["shared"] == "yes"
        if e and e["type"] != "unset":
            r["file_type"] = e["type"]
        return r

    def do_Create(self, e):
        from pythagoras import OverlappingMultiDict
        own = {}
        for t, s in e["own"].items():
            own[t] = {}
            if s["imm"] != "unset":
                own[t]["immutable_items"] = s["imm"] == "yes"
            if s["text"]:
                own[t]["base_class_for_values"] = str
        names = list(own)
        self.rng.shuffle(names)
        own = {t: own[t] for t in names}
        shared = self.shared(e)
        before = copy.deepcopy((shared, own))
        d = OverlappingMultiDict(self.kind, shared, **own) if self.rng.random() < .5 else OverlappingMultiDict(
            dict_type=self.kind, shared_subdicts_params=shared, **own)
        assert (shared, own) == before, "the arguments have been changed"
        assert list(d.subdicts_names) == names, "other parts than asked for"
        self.objects[e["obj"]] = (d, names)

    def do_CreateBad(self, e):
        from pythagoras import OverlappingMultiDict
        what = e["what"]
        kind = self.rng.choice([dict, str, int]) if what == "class" else self.kind
        shared = self.rng.choice([None, [("base_dir", self.place)], self.place]) if what == "shared" else self.shared()
        part = self.rng.choice([None, "immutable_items", [], str]) if what == "part" else {}
        OverlappingMultiDict(kind, shared, json={}, pkl=part)

    def part(self, e):
        return getattr(self.objects[e["obj"]][0], e["part"])

    def key(self, k):
        k = self.keys[k]
        return k if len(k) > 1 or self.rng.random() < .5 else k[0]

    def do_Set(self, e):
        self.part(e)[self.key(e["key"])] = self.values[e["val"]]

    def do_Del(self, e):
        del self.part(e)[self.key(e["key"])]

    def do_Clear(self, e):
        self.part(e).clear()

    def do_Forget(self, e):
        del self.objects[e["obj"]]

    def do_Refuse(self, e):
        d, k = self.objects[e["obj"]][0], self.key(self.rng.choice(list(self.keys)))
        w = e["what"]
        if w == "get":
            d[k]
        elif w == "set":
            d[k] = "v"
        elif w == "del":
            del d[k]
        elif w == "pickle":
            pickle.dumps(d)
        elif w == "copy":
            copy.copy(d)
        elif w == "deep copy":
            copy.deepcopy(d)
        else:
            joblib.dump(d, io.BytesIO())

    def look(self, o):
        if o not in self.objects:
            return []
        d, names = self.objects[o]
        out = {}
        for t in names:
            part = getattr(d, t)
            assert type(part) is self.kind
            row, there = {}, 0
            for name, key in self.keys.items():
                row[name] = "none"
                if key in part:
                    there += 1
                    try:
                        row[name] = self.name(part[key])
                    except TypeError:
                        row[name] = "unreadable"
            keys = sorted(tuple(k) for k in part.keys())
            if len(part) != there or keys != sorted(self.keys[x] for x in row if row[x] != "none"):
                row["keys"] = f"{len(part)} items: {keys}"
            out[t] = row
        return out

    def name(self, v):
        for n, x in self.values.items():
            if type(x) is type(v) and x == v:
                return n
        return f"a strange value: {v!r}"[:100]

    def end(self):
        if self.place != "d":
            shutil.rmtree(self.place, ignore_errors=True)


def run(ctx):
    inv = dict(view="View", action_constraint="Emit", invariants=["TypeOK"], properties=["Apart", "Stays"])
    small = dict(Objects={"o"}, Types={"pkl", "txt"}, Keys={"k1"}, Texts={"t1"}, Others={"n1"}, MaxSteps=3)
    large = dict(Objects={"o", "p", "q"}, Types={"pkl", "json", "txt", "py"}, Keys={"k1", "k2", "k3"},
                 Texts={"t1", "t2", "t3"}, Others={"n1", "n2"}, MaxSteps=ctx.pick(40, 80))
    jobs = [lambda: ctx.tlc("MultiDict", constants=small, **inv),
            lambda: ctx.tlc("MultiDict", constants=large, next="NextSome", simulate=ctx.pick(120, 2500),
                            depth=ctx.pick(42, 82), seed=ctx.seed, **inv)]
    all_small, sim = ctx.parallel(jobs)
    n = 0
    for label, bs, c in (("all small", ctx.some(tla.Graph(all_small).cover(ctx.rng, 40), ctx.pick(3000, 10 ** 6)), small),
                         ("simulated", tla.split_simulation(sim.lines), large)):
        for b in bs:
            n += 1
            b["init"] = dict(n=n + 100000 * ctx.seed, objects=sorted(c["Objects"]), keys=sorted(c["Keys"]), texts=sorted(c["Texts"]),
                             others=sorted(c["Others"]))
        ctx.replay(bs, MultiDicts, label=label, chunk=10, timeout=200)
