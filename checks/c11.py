"""C11: a function's dependencies are the island functions it can reach."""
import random

from vf import probe, simdict, tla
from . import scopes_render as sr

NAMES = ["f", "g", "h", "fib", "load", "clean", "a", "zz", "run_all", "f1", "F", "_q", "walk", "g_2",
         "step", "merge", "data", "len_", "sum_all", "k", "make", "p", "f_", "ff", "get", "Sub", "t0", "sys",
         "Any", "Callable", "DataPortal", "OrdinaryFn", "BasicPortal", "get_hash_signature", "__x__"]

SHADOW = ["{n} = 0\n{n}", "for {n} in (1, 2): {n}", "def {n}(): pass\n{n}()", "class {n}: pass\n{n}",
          "import os as {n}\n{n}", "from os import path as {n}\n{n}", "with print() as {n}: {n}",
          "lambda {n}: {n}", "[{n} for {n} in ()]", "def _d({n}): return {n}",
          "def _d():\n    {n} = 0\n    def _e(): return {n}", "({n} := 0) or {n}",
          "try: pass\nexcept Exception as {n}: {n}", "def _d():\n    return {n}\n{n} = 0",
          "class _b:\n    {n} = 0\n    {n}", "def _d():\n    return lambda: {n}\n{n} = 0",
          "match 0:\n    case {n}: {n}", "def _d():\n    nonlocal {n}\n    {n} = 1\n{n} = 0"]
GLOBAL = ["def _d():\n    global {n}\n    return {n}", "class _b:\n    global {n}\n    {n}",
          "class _b:\n    {n} = 0\n    def m(self): return {n}", "def _d(x={n}):\n    {n} = x",
          "[{n} for _i in {n}]", "def _d():\n    def _e():\n        def _f(): return {n}\n    {n}_ = 0",
          "lambda: [[{n} for _i in ()] for _j in ()]", "[{m} for {m} in {n}]",
          "def _d({m}):\n    return {n}({m})", "{n}({n}({n}))", "class _b:\n    class _c:\n        q = {n}"]


class Island:
    def __init__(self, init):
        import pythagoras as p
        self.rng = random.Random(init["n"])
        funs = sorted(init["refs"])
        self.name = dict(zip(funs, self.rng.sample(NAMES, len(funs))))
        self.back = {v: k for k, v in self.name.items()}
        simdict.SimDict.reset()
        self.ran = []
        probe.install(ran=lambda: self.ran.append(1) or True)
        self.portal = p.PureCodePortal(root_dict=simdict.SimDict("portal"))
        self.island = self.rng.choice([None, "isle"])
        self.wrapped, self.source = {}, {}

    def text(self, f, refs):
        r, lines = self.rng, []
        uses = {**sr.USE, **sr.USE_DEF, **{str(i): g for i, g in enumerate(GLOBAL)}}
        todo = sorted(self.name)
        r.shuffle(todo)
        params = []
        for g in todo:
            n = self.name[g]
            if g in refs:
                form = r.choice(list(uses.values()))
                lines += form.format(n=n, m="_m").split("\n")
            elif r.random() < .5 and g != f:
                form = r.choice(list(sr.MENTION.values()) + list(sr.MENTION_FN.values()) + SHADOW + ["", ""])
                if form == "":
                    params.append(n + "=0")
                    form = "{n}"
                lines += sr.with_annotations(form.format(n=n)).split("\n")
        head = f"def {self.name[f]}({', '.join(params)}):\n    import vprobe\n    if vprobe.ran(): return 0\n"
        return head + "".join("    " + l + "\n" for l in lines)

    def step(self, e):
        import pythagoras as p
        f = e.get("f")
        if e["a"] == "Define":
            kind = self.rng.choice(["autonomous", "pure"])
            if e["strict"]:
                kind = "strictly_autonomous"
            self.source[f] = self.text(f, e["refs"])
            with self.portal:
                self.wrapped[f] = getattr(p, kind)(island_name=self.island)(self.source[f])
            return dict(ok=True)
        if e["a"] == "Call":
            before = len(self.ran)
            try:
                self.wrapped[f]()
            except Exception as x:
                if len(self.ran) != before:
                    return dict(ok=f"failed after it started: {x!r}")
                return dict(ok=False, deps_s=[])
            return dict(ok=True, deps_s=sorted(self.back.get(n, n) for n in self.wrapped[f].dependencies))
        from pythagoras._060_autonomous_functions.call_graph_explorer import explore_call_graph_deep
        which = list(self.source)
        self.rng.shuffle(which)
        got = explore_call_graph_deep([self.wrapped[f] if self.rng.random() < .5 else self.source[f] for f in which])
        return dict(graph_s={self.back.get(k, k): sorted(self.back.get(n, n) for n in v) for k, v in got.items()})


def run(ctx):
    on = dict(invariants=["UsedStaysUsable", "StrictAlone", "Closed", "Cycles"], properties=["Stable"])
    sim = [("abcd", 4, 1, ctx.pick(120, 3000)), ("abcde", 3, 0, ctx.pick(120, 3000)),
           ("abcdef", 2, 1, ctx.pick(120, 3000)), ("abcdefgh", 2, 0, ctx.pick(120, 3000))]
    deep = [("abcdefghijklmn", 1), ("abcdefghijklmnop", 2)]
    three, strict, *random_ = ctx.parallel(
        [lambda: ctx.tlc("CallGraph", constants=dict(Funs=set("abc"), MaxRefs=3, Stricts=0, Chain=()), **on),
         lambda: ctx.tlc("CallGraph", constants=dict(Funs=set("abc"), MaxRefs=2, Stricts=2, Chain=()), **on)]
        + [lambda k=k, x=x: ctx.tlc("CallGraph", constants=dict(Funs=set(x[0]), MaxRefs=x[1], Stricts=x[2], Chain=()),
                                    simulate=x[3], depth=4 * len(x[0]), seed=ctx.seed * 10 + k)
           for k, x in enumerate(sim)]
        + [lambda c=c, m=m: ctx.tlc("CallGraph", constants=dict(Funs=set(c), MaxRefs=m, Stricts=0, Chain=tuple(c)),
                                    simulate=ctx.pick(20, 600), depth=3 * len(c), seed=ctx.seed)
           for c, m in deep])
    n = 0
    for label, bs, limit in (
            ("all graphs of three functions", tla.Graph(three).cover(ctx.rng, 14), ctx.pick(900, 10 ** 6)),
            ("strict functions", tla.Graph(strict).cover(ctx.rng, 14), ctx.pick(250, 10 ** 6)),
            ("larger graphs", sum((tla.split_simulation(r.lines) for r in random_), []), 10 ** 6)):
        bs = ctx.some(bs, limit)
        for b in bs:
            n += 1
            b["init"] = dict(b["init"], n=n + 100000 * ctx.seed)
        ctx.replay(bs, Island, label=label, chunk=8, timeout=300)
