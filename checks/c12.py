"""C12: what islands hold."""
import contextlib
import linecache
import pickle
import re

from vf import probe, tla
from .world import World

VALUES = [[1, "one"], [None, False], [(1, 2), [1, 2]], [{"a": [1]}, {}]]
NAMES = ["ff", "gg"]
BAD = ["yield 1", "yield from []", "nonlocal zz", "def h():\n        nonlocal zz\n        return zz",
       "return ("]


class Isles(World):
    def __init__(self, init):
        super().__init__(init["n"])
        r = self.rng
        self.args = r.choice(VALUES)
        self.names = {"i1": r.choice(["Samos", "one"]), "i2": "two"}
        self.disk = r.choice(["d", None])
        self.known, self.log, self.made = [], [], 0
        probe.install(body=self.body)
        self.ts = sorted(init["defs"])
        self.session(None)

    def body(self, f, s, x, d):
        self.log.append((f, d))
        return [type(x).__name__, x]

    def session(self, e):
        self.forget()
        self.w = {}
        names = list(self.ts)
        self.rng.shuffle(names)
        for t in names:
            kw = {} if self.names["i1"] == "Samos" and self.rng.random() < .5 else \
                dict(default_island_name=self.names["i1"])
            self.portal(t, disk=self.disk, **kw)
        return dict(ok=True)

    # --- definitions
    def source(self, f, s, bad=False):
        r = self.rng
        other = [g for g in NAMES if g != f][0]
        calls = {1: [], 2: [other], 3: [f], 4: NAMES, 5: ["nobody"]}[s]
        inner = ", ".join(f"{g}(x=x, d=d - 1)" for g in calls)
        lines = [f"def {f}(x, d):", "    import vprobe", f"    me = ['{f}', {s}, vprobe.body('{f}', {s}, x, d)]",
                 f"    return me + [[{inner}] if d else []]"]
        if bad:
            lines.insert(r.choice([2, 3]), "    " + r.choice(BAD))
        k = r.randint(0, 4)
        if k == 1:
            lines.insert(1, '    """What it does."""')
        elif k == 2:
            lines = [x + "   # a comment" for x in lines]
        elif k == 3:
            lines = [lines[0].replace("x, d)", "x, d : int)"), ""] + lines[1:]
        elif k == 4:
            lines = [lines[0].replace(", ", ",")] + [x.replace("'", '"') for x in lines[1:]]
        return "\n".join(lines) + "\n"

    def code(self, f, s, bad):
        """The function, as text or as a callable."""
        text = self.source(f, s, bad)
        if self.rng.random() < .6:
            return text
        self.made += 1
        name = f"<made {self.made}>"
        try:
            c = compile(text, name, "exec")
        except SyntaxError:
            return text
        linecache.cache[name] = (len(text), None, text.splitlines(True), name)
        space = {"__name__": "made"}
        exec(c, space)
        return space[f]

    def decorate(self, t, i, f, k, what):
        p, r = self.p, self.rng
        kw = {}
        inside = r.random() < .4
        if not inside:
            kw["portal"] = self.portals[t]
        if i != "i1" or r.random() < .5:
            kw["island_name"] = self.names[i]
        if k == "guarded":
            other = [g for g in NAMES if g != f][0]
            have = [w for (t2, i2, g), w in self.w.values() if (t2, i2, g) == (t, i, other)]
            g = r.choice(have) if have and r.random() < .5 else other
            kw["guards"] = r.choice([g, [g]])
        if k == "listed":
            kw["guards"] = []
        if k == "autonomous":
            deco = p.autonomous
        elif k == "strict":
            deco = p.strictly_autonomous
            if r.random() < .3:
                deco, kw = p.autonomous, dict(kw, strictly_autonomous=True)
        else:
            deco = p.pure
        now = self.portals[t] if inside else self.elsewhere()
        with now:
            d = deco(**kw)
            if not inside and r.random() < .5:
                return d(what)
            with self.portals[t] if inside else contextlib.nullcontext():
                return d(what)

    def elsewhere(self):
        r = self.rng
        return self.portals[r.choice(self.ts)] if r.random() < .4 else contextlib.nullcontext()

    def keep(self, e, t, i, f, do):
        try:
            w = do()
        except Exception:
            return dict(ok=False)
        self.w[e["w"]] = ((t, i, f), w)
        if w.portal is not self.portals[t] or w.fn_name != f or w.island_name != self.names[i]:
            return dict(ok=f"of {w.portal} {w.fn_name} {w.island_name}")
        return dict(ok=True)

    def define(self, e):
        t, i, f = e["t"], e["i"], e["m"]
        return self.keep(e, t, i, f, lambda: self.decorate(t, i, f, e["k"], self.code(f, e["s"], False)))

    def baddefine(self, e):
        t, i, f = e["t"], e["i"], e["m"]
        return self.keep(dict(w=0), t, i, f, lambda: self.decorate(t, i, f, e["k"], self.code(f, e["s"], True)))

    def wrap(self, e):
        (_, _, f), w = self.w[e["from"]]
        return self.keep(e, e["t"], e["i"], f, lambda: self.decorate(e["t"], e["i"], f, e["k"], w))

    def travel(self, e):
        (_, i, f), w = self.w[e["from"]]
        text = pickle.dumps(w)

        def load():
            with self.portals[e["t"]]:
                return pickle.loads(text)
        return self.keep(e, e["t"], i, f, load)

    # --- use
    def kwargs(self, e):
        items = [("x", self.args[e["x"] - 1]), ("d", e["d"])]
        self.rng.shuffle(items)
        return dict(items)

    def plain(self, x, arg):
        assert x[2] == [type(arg).__name__, arg], f"called with {x[2]}"
        return [x[0], x[1], [self.plain(y, arg) for y in x[3]]]

    def call(self, e):
        (_, _, f), w = self.w[e["w"]]
        r = self.rng
        kw = self.kwargs(e)
        try:
            with self.elsewhere():
                k = r.randint(0, 2)
                if k == 2 and hasattr(w, "get_address"):
                    got = w.get_address(**kw).execute()
                else:
                    got = w(**kw) if k else w.execute(**kw)
        except Exception:
            return dict(ok=False, value=[], ran_s=[])
        return dict(ok=True, value=self.plain(got, self.args[e["x"] - 1]), ran_s=sorted(set(self.log)))

    def address(self, e):
        (_, _, f), w = self.w[e["w"]]
        try:
            with self.elsewhere():
                a = w.get_address(**self.kwargs(e))
                ready = a.ready
        except Exception:
            return dict(j=0, ready=False)
        a = tuple(a)
        if a not in self.known:
            self.known.append(a)
        return dict(j=self.known.index(a) + 1, ready=ready)

    def look(self, e):
        (_, _, f), w = self.w[e["w"]]
        try:
            deps = w.dependencies
        except Exception:
            # they are only known to those that were used
            deps = e["o"]["deps_s"]
        return dict(s=self.which(w), k=self.told(w), deps_s=deps)

    def told(self, w):
        """Its kind, provided that the functions which tell kinds agree with it."""
        k = self.kind(w)
        from pythagoras._060_autonomous_functions import autonomicity_checks as ac
        from pythagoras._070_pure_functions.purity_checks import is_pure
        strict = ac.is_strictly_autonomous(w)
        # a function counts as strict if it was declared so, or if it needs nothing of its island
        said = (ac.is_autonomous(w), is_pure(w), ac.is_loosely_autonomous(w))
        if said != (True, k in ("pure", "guarded", "listed"), not strict):
            return f"{k}, but said to be {said}"
        if not strict if k == "strict" else strict and self.which(w) not in (1, 3):
            return f"{k}, but strict: {strict}"
        for other in (len, lambda: 0, self.source):
            if any(is_such(other) for is_such in (ac.is_autonomous, is_pure, ac.is_loosely_autonomous,
                                                  ac.is_strictly_autonomous)):
                return f"{other} is said to be autonomous or pure"
        return k

    # --- what there is
    def which(self, w):
        m = re.search(rf"\['{w.fn_name}', (\d),", w.fn_source_code)
        return int(m[1]) if m else w.fn_source_code

    def kind(self, w):
        if isinstance(w, self.p.PureFn):
            k = "guarded" if w.guards else "pure" if w.guards is None else "listed"
        else:
            k = {"autonomous": "autonomous", "strictly_autonomous": "strict"}[w.fn_type]
        want = {"autonomous": "@pth.autonomous(", "strict": "@pth.strictly_autonomous("}.get(k, "@pth.pure(")
        return k if w.decorator.startswith(want) and ("guards" in w.decorator) == (k in ("guarded", "listed")) else w.decorator

    def all(self):
        back = {v: k for k, v in self.names.items()}
        out, isles = [], []
        for t, p in self.portals.items():
            for i, fs in p.known_functions.items():
                isles.append([t, back.get(i, i)])
                for f, w in fs.items():
                    ok = w.fn_name == f and w.island_name == i and w.portal is p
                    out.append([t, back.get(i, i), f, self.which(w), self.kind(w) if ok else "misplaced"])
        return out, isles

    def step(self, e):
        self.log = []
        out = getattr(self, e["a"].lower())(e)
        if self.stack():
            out = {k: f"portals are left entered: {self.stack()}" for k in out}
        alls, isles = self.all()
        return dict(out, all_s=alls, isles_s=isles)


BASE = dict(Order=NAMES, Islands={"i1", "i2"}, Default="i1", Portals={"p", "q"}, Sources={1, 2, 3, 4, 5},
            Kinds={"autonomous", "strict", "pure", "guarded", "listed"}, Args={1, 2}, MaxD=2, MaxSteps=40, MaxW=6)
INV = dict(view="View", action_constraint="Emit", invariants=["Stand"],
           properties=["Kept", "OneAtATime", "Steady"])


def run(ctx):
    one = dict(Islands={"i1"}, Portals={"p"})
    sims = [(dict(), ctx.pick(60, 3000)), (one, ctx.pick(60, 2000)), (dict(one, Portals={"p", "q"}), ctx.pick(40, 1500)),
            (dict(one, Sources={1, 3}, Kinds={"pure", "guarded", "autonomous"}), ctx.pick(30, 1000))]
    small = dict(one, Sources={1, 2}, Kinds={"autonomous", "strict", "pure", "guarded"}, Args={1}, MaxD=1,
                 MaxSteps=ctx.pick(4, 5), MaxW=2)
    jobs = [lambda c=c, k=k, n=n: ctx.tlc("Islands", constants=dict(BASE, **c), init="Init", next="NextSim",
                                          simulate=n, depth=BASE["MaxSteps"] + 2, seed=ctx.seed * 10 + k, **INV)
            for k, (c, n) in enumerate(sims)]
    jobs.append(lambda: ctx.tlc("Islands", constants=dict(BASE, **small), init="Init", next="Next", **INV))
    rs = ctx.parallel(jobs)
    groups = [(f"simulated {c}", tla.split_simulation(r.lines)) for (c, _), r in zip(sims, rs)]
    groups.append(("small", ctx.some(tla.Graph(rs[-1]).cover(ctx.rng, 40), ctx.pick(300, 20000))))
    n = 0
    for label, bs in groups:
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
        ctx.replay(bs, Isles, label=label, chunk=8, timeout=200)
