"""C08: normalized source: what a function's text has to do with what it does."""
import linecache
import random
import sys
import types

from . import edits_render as er

_values = None


class Norm:
    def __init__(self, init):
        global _values
        import pythagoras as p
        from pythagoras._040_ordinary_functions.code_normalizer import get_normalized_function_source
        from vf import simdict
        self.p, self.norm = p, get_normalized_function_source
        self.rng = random.Random(init["n"])
        _values = _values or er.values()
        simdict.SimDict.reset()
        self.portal = p.PureCodePortal(simdict.SimDict("d"))

    def function(self, text):
        """The function a module with this text defines, with decorators that do nothing."""
        indented = next(l for l in text.split("\n") if l.strip() and not l.strip().startswith("#"))[0] in " \t"
        if indented:
            text = "if True:\n" + text
        name = f"<edits{self.rng.random()}>"
        linecache.cache[name] = (len(text), None, text.splitlines(True), name)
        same = lambda *a, **k: lambda f: f
        decs = {d: same for d in self.p.all_decorators}
        ns = dict(decs, pth=types.SimpleNamespace(**decs), __name__="edits")
        exec(compile(text, name, "exec"), ns)
        return ns["f"]

    def does(self, f, how):
        out = []
        for x in (0, 1):
            t = []
            if how == "named":
                f(t=t, x=x)
            elif how == "more":
                try:
                    f(t=t, x=x, more_of_it=1)
                except Exception as e:
                    t = [type(e).__name__]
            else:
                try:
                    f(t, x)
                except Exception as e:
                    t = [type(e).__name__]
            out.append(t)
        return repr(out)

    def step(self, e):
        first, msg = {}, None
        for i, v in enumerate(e["versions"]):
            style = er.Style(v["style"], self.rng)
            text = er.render(v["p"], style)
            where = f"version {i + 1}, written\n{text}"
            f = self.function(text)
            expected = repr([[y for r in rs for y in _values[x, r]] for x, rs in enumerate(v["reports"])])
            assert self.does(f, "named") == expected, ("the specification and Python disagree on", text, self.does(f, "named"), expected)
            given = f if "function" in v["style"] else text
            n = self.norm(given)
            if v["same"] in first:
                if first[v["same"]] != n:
                    return dict(bad=f"{where}\nis normalized to\n{n}\nbut before the same was\n{first[v['same']]}")
            elif n in first.values():
                return dict(bad=f"{where}\nis normalized to\n{n}\nlike something else")
            first[v["same"]] = n
            if self.norm(n) != n:
                return dict(bad=f"{where}\nis normalized to\n{n}\nand then to\n{self.norm(n)}")
            ns = {}
            exec(n, ns)
            for how in ("named", "more", "in order"):
                if self.does(ns["f"], how) != self.does(f, how):
                    return dict(bad=f"{where}\nis normalized to\n{n}\nwhich does {self.does(ns['f'], how)} ({how})")
            kind = self.rng.choice(["ordinary", "autonomous", "pure", "strictly_autonomous"])
            w = getattr(self.p, kind)(portal=self.portal, **(
                {} if kind == "ordinary" else dict(island_name=f"i{i}")))(given)
            if self.norm(w) != n or w.fn_source_code != n or w.fn_name != "f":
                return dict(bad=f"{where}\nis, decorated,\n{w.fn_source_code}\nand not\n{n}")
            if kind in ("ordinary", "autonomous"):
                if self.does(w, "named") != expected:
                    return dict(bad=f"{where}\nreports, decorated as {kind}, {self.does(w, 'named')} and not {expected}")
        return dict(bad=None)


def run(ctx):
    inv = dict(invariants=["TypeOK", "SameMeansSame", "Shows"])
    n = ctx.pick(100, 4000)
    c = dict(Exprs=set(er.EXPRS), Defaults=er.DEFAULTS, Stmts=set(er.STMTS), Shapes=set(er.SHAPES), Dims=set(er.DIMS))
    jobs = [lambda: ctx.tlc("CodeEdits", constants=dict(
        Exprs={1, 2}, Defaults={1, 2}, Stmts={101}, Shapes={0}, Dims=set(), MaxLen=ctx.pick(2, 3), MaxDepth=2, MaxVersions=2),
        next="NextAll", constraint="Early", **inv)]
    for k, (size, depth) in enumerate(((3, 1), (5, 2), (8, 3), (14, 4))):
        jobs.append(lambda k=k, size=size, depth=depth: ctx.tlc("CodeEdits", constants=dict(
            c, MaxLen=size, MaxDepth=depth, MaxVersions=ctx.pick(8, 12)), simulate=n, depth=70,
            action_constraint="Emit", seed=ctx.seed * 10 + k, **inv))
    small, *sims = ctx.parallel(jobs)
    bs = [dict(init=dict(n=f"{ctx.seed}/{i}/{j}"), events=[dict(l["e"], o=dict(bad=None))])
          for i, r in enumerate(sims) for j, l in enumerate(r.lines) if l["k"] == "T"]
    ctx.replay(bs, Norm, label="versions", chunk=4, timeout=300)
