"""Drives definitions, calls and addresses as CallIdentity.tla has it."""
import pickle
import re

from vf import probe
from vf.simdict import SimDict
from .world import World

VALUES = [[1, [1], {"a": 1}], [None, False, 0], ["", "x", b"x"], [(1, 2), [1, 2], "(1, 2)"],
          [1, 1.0, True], [{"a": 1, "b": [None]}, {"b": [None], "a": 2}, {}], [[], (), set()]]


PARAMS = [("x", "d")] * 4 + [("x", "X"), ("N", "n"), ("x_1", "x"), ("x10", "x9"), ("self", "portal"), ("kwargs", "a_fn"),
                              ("_", "__"), ("größe", "Größe"), ("prefix", "hash_signature"), ("func", "args")]


class Identity(World):
    def __init__(self, init):
        super().__init__(init["n"])
        r = self.rng
        self.uses, self.grds, self.pure = init["uses"], init["grds"], set(init["pure"])
        self.args = r.choice(VALUES)
        self.px, self.pd = r.choice(PARAMS)     # what the parameters x and d are called
        self.names = {"i1": r.choice([None, "one"]), "i2": "two"}
        self.isle = {"i1": self.names["i1"] or "Samos", "i2": "two"}
        self.known, self.pickled, self.meant = [], [], []
        self.log = []
        probe.install(body=self.body, guard=lambda *a: None)
        self.sess()

    def sess(self):
        self.forget()
        self.last, self.default = [], {}
        r = self.rng
        names = ["p", "q"]
        r.shuffle(names)
        for t in names:
            self.default[t] = r.choice(["Samos", "Samos", "one", "two", "elsewhere"])
            kw = dict(default_island_name=self.default[t]) if self.default[t] != "Samos" or r.random() < .3 else {}
            self.portal(t, p_consistency_checks=r.choice([0, None]), **kw)
        self.fn = {}

    def body(self, f, v, x, d):
        self.log.append([f, d])
        return self.index(x)

    def index(self, x):
        for j, a in enumerate(self.args):
            if type(a) is type(x) and a == x:
                return j + 1
        return repr(x)

    # --- sources
    def source(self, f, v):
        r = self.rng
        src = 1 if v == 3 else v
        if f not in self.uses:
            lines = [f"def {f}(x, d):", "    import vprobe", f"    vprobe.guard('{f}', {src}, x, d)"]
        else:
            calls = sorted(self.uses[f][src - 1])
            inner = ", ".join(f"{g}(x=x, d=d - 1)" for g in calls)
            lines = [f"def {f}(x, d):", "    import vprobe",
                     f"    me = ['{f}', {src}, vprobe.body('{f}', {src}, x, d)]",
                     f"    return me + [[{inner}] if d else []]"]
        # the same code in another guise
        k = r.randint(0, 5)
        if k == 1:
            lines.insert(1, "    '''What it does.'''")
        elif k == 2:
            lines = [l + "   # a comment" for l in lines]
        elif k == 3:
            lines = [lines[0], ""] + ["        " + l.strip() + "\n" for l in lines[1:]]
        elif k == 4:
            lines[-1] = lines[-1].replace("return me + [[", "return (me + [[") + \
                (")" if "return me + [[" in lines[-1] else "")
        elif k == 5:
            lines = [lines[0].replace("x, d", "x,d") + " # it"] + [l.replace("'", '"') for l in lines[1:]]
        src = "\n".join(lines) + "\n"
        return re.sub(r"\b[xd]\b", lambda m: self.px if m[0] == "x" else self.pd, src)

    def make(self, t, i, f, v):
        p, r = self.p, self.rng
        kw = {}
        inside = r.random() < .5
        if not inside:
            kw["portal"] = self.portals[t]
        if self.isle[i] != self.default[t] or r.random() < .5:
            kw["island_name"] = self.isle[i]
        if f not in self.uses:
            deco = p.strictly_autonomous
        elif f in self.pure:
            deco = p.pure
            gs = list(self.grds[f][v - 1])
            r.shuffle(gs)
            gs = [self.fn.get((t, i, g), g) if r.random() < .5 else g for g in gs]
            if gs or r.random() < .2:
                kw["guards"] = gs if len(gs) != 1 or r.random() < .7 else gs[0]
            if not gs and "guards" in kw:
                del kw["guards"]
        else:
            deco = p.autonomous
        if inside:
            with self.portals[t]:
                w = deco(**kw)(self.source(f, v))
        else:
            w = deco(**kw)(self.source(f, v))
        self.fn[t, i, f] = w

    def kwargs(self, t, x, d):
        r = self.rng
        items = [(self.px, self.args[x - 1]), (self.pd, d)]
        r.shuffle(items)
        kw = {}
        for k, v in items:
            if r.random() < .3:
                with self.portals[t]:
                    v = self.p.ValueAddr(v)
            kw[k] = v
        return kw

    def plain(self, x):
        """What a value consists of, without the arguments in it."""
        return [x[0], x[1], [self.plain(y) for y in x[3]]]

    def args_in(self, x):
        return {x[2]} | set().union(*[self.args_in(y) for y in x[3]])

    def place(self, a):
        """Which of the known addresses it is."""
        text = tuple(a)
        if text not in self.known:
            self.known.append(text)
            self.pickled.append(pickle.dumps(a))
        return self.known.index(text) + 1

    def load(self, t, j):
        r = self.rng
        with self.portals[t]:
            if r.random() < .5:
                return pickle.loads(self.pickled[j - 1])
            a, b = self.known[j - 1]
            kw = dict(portal=self.portals[t]) if r.random() < .5 else {}
            return self.p.PureFnExecutionResultAddr.from_strings(
                prefix=a, hash_signature=b, assert_readiness=False, **kw)

    def elsewhere(self, t):
        """Perhaps some portal is the current one, perhaps none."""
        import contextlib
        return self.portals[t] if self.rng.random() < .3 else contextlib.nullcontext()

    def ran(self):
        log, self.log = self.log, []
        return sorted({tuple(x) for x in log})

    def wrapper(self, t, i, f):
        # functions that came with an address have no wrapper here yet
        w = self.fn.get((t, i, f))
        return w if w is not None else self.portals[t].known_functions[self.isle[i]][f]

    def step(self, e):
        a = e["a"]
        self.log = []
        out = getattr(self, a.lower())(e)
        if self.stack():
            return dict(out, o=f"portals are left entered: {self.stack()}", ok="left", j="left", ready="left")
        return out

    def session(self, e):
        self.sess()
        return dict(ok=True)

    def define(self, e):
        before = self.registered(e["t"])
        try:
            self.make(e["t"], e["i"], e["f"], e["v"])
            return dict(ok=True)
        except Exception:
            if self.registered(e["t"]) != before:
                return dict(ok="refused, but something is left")
            return dict(ok=False)

    def registered(self, t):
        return {(i, f): w.fn_source_code for i, fs in self.portals[t].known_functions.items() for f, w in fs.items()}

    def address(self, e):
        w = self.wrapper(e["t"], e["i"], e["f"])
        before = self.registered(e["t"])
        try:
            with self.elsewhere(e["t"]):
                a = w.get_address(**self.kwargs(e["t"], e["x"], e["d"]))
        except Exception:
            return dict(j=0 if self.registered(e["t"]) == before else "something is left")
        j = self.place(a)
        b = w.get_address(**self.kwargs(e["t"], e["x"], e["d"]))
        if tuple(a) != tuple(b) or not a == b or a != b:
            return dict(j="another address for the same call")
        for c in self.last:
            same = tuple(a) == tuple(c)
            if (a == c) is not same or (c != a) is same or (c in [a]) is not same:
                return dict(j=f"{a} and {c} should {'' if same else 'not '}be equal")
        self.last = self.last[-8:] + [a]
        if j == len(self.meant) + 1:
            self.meant.append(dict(e, j=j))
        return dict(j=j)

    def call(self, e):
        w = self.wrapper(e["t"], e["i"], e["f"])
        r = self.rng
        try:
            with self.elsewhere(e["t"]):
                kw = self.kwargs(e["t"], e["x"], e["d"])
                if e["f"] not in self.pure:
                    kw = {self.px: self.args[e["x"] - 1], self.pd: e["d"]}
                    got = w(**kw)
                else:
                    k = r.randint(0, 3)
                    got = (w(**kw) if k == 0 else w.execute(**kw) if k == 1 else
                           w.run(**kw).get() if k == 2 else w.get_address(**kw).execute())
        except Exception:
            self.log = []
            return dict(ok=False, value=[], ran_s=[])
        if self.args_in(got) != {e["x"]}:
            return dict(ok=f"with arguments {self.args_in(got)}")
        return dict(ok=True, value=self.plain(got), ran_s=self.ran())

    def read(self, e):
        a = self.load(e["t"], e["j"])
        ready = a.ready
        if not ready:
            return dict(ready=False, value=[])
        with self.elsewhere(e["t"]):
            got = a.get(timeout=0)
        if self.log:
            return dict(ready="runs")
        return dict(ready=True, value=self.plain(got))

    def restore(self, e):
        before = self.registered(e["t"])
        with self.elsewhere(e["t"]):
            a = self.load(e["t"], e["j"])
            try:
                f = a.function
            except Exception:
                if self.registered(e["t"]) != before:
                    return dict(ok="refused, but something is left")
                return dict(ok=False)
            kw = a.kwargs
            out = dict(ok=True, f=a.fn_name, i=[k for k in self.isle if self.isle[k] == a.island_name][0],
                       guards_s=f.guards or [], x=self.index(kw[self.px]), d=kw[self.pd],
                       j=self.place(f.get_address(**kw)))
            if self.rng.random() < .5:
                out["j"] = self.place(f.get_address(**a.arguments))
            src = f.fn_source_code
            out["v"] = 1 if f"'{out['f']}', 1" in src else 2 if f"'{out['f']}', 2" in src else src
            if a.fn_source_code != src or f.portal is not self.portals[e["t"]]:
                out["v"] = "the wrong code or portal"
            if set(kw) != {self.px, self.pd}:
                out["d"] = sorted(kw)
            island = self.portals[e["t"]].known_functions[a.island_name]
            text = f.augmented_fn_source_code
            parts = []
            for g in {x for x in (*self.uses, "kk", "mm") if f"def {x}(" in text}:
                for v in (1, 2):
                    if f"'{g}', {v}" in island[g].fn_source_code:
                        parts.append([g, v])
            out["parts_s"] = parts
        return out

    def execute(self, e):
        before = self.registered(e["t"])
        with self.elsewhere(e["t"]):
            a = self.load(e["t"], e["j"])
            try:
                got = a.execute()
            except Exception:
                if self.registered(e["t"]) != before:
                    return dict(ok="refused, but something is left")
                return dict(ok=False, value=[], ran_s=[])
        return dict(ok=True, value=self.plain(got), ran_s=self.ran())
