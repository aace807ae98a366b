"""C09: what may be wrapped, and what calling a wrapper does."""
import asyncio
import functools
import linecache
import math
import random
import types

from vf import probe, simdict

NAMES = ["a", "x", "self", "cls", "args", "kwargs", "portal", "pth", "a_func", "a_fn", "names_dict", "result",
         "sys", "timeout", "island_name", "guards", "list", "print", "_", "fn_name", "exec", "kwargs_f", "b2",
         "suggested_portal", "item", "é", "__name__", "list_of_kwargs", "function", "arguments", "self_", "frame",
         "strictly_autonomous", "data", "key", "value", "type", "None_", "object", "exc_value", "f_", "__x", "super"]
FUNCTIONS = ["f", "g2", "run_it", "_p", "kwargs", "result", "execute", "self_", "data_f", "define", "deff", "portal", "F", "sys", "Any",
             "compile", "DataPortal", "OrdinaryFn", "self", "names", "exec_"]
DEFAULTS = ["None", "0", "''", "'d'", "(1, 2)", "-1.5", "b'x'", "True", "[1]", "{'k': 1}", "'a, b=2): return 7'", "' define(x) '"]
GIVEN = [1, None, "v", "", (1, "v"), [1, [2]], {"k": [1]}, 2.5, True, b"v", "f(x)"]

MODULE = """
def _deco(f=None):
    return (lambda g: g) if f is None else f
class _own:
    deco = _deco
"""


class World:
    def __init__(self, init):
        import pythagoras as p
        from pythagoras._050_safe_functions.safe_decorator import safe
        self.p, self.rng = p, random.Random(init["n"])
        simdict.SimDict.reset()
        self.portal = p.PureCodePortal(simdict.SimDict("d"))
        self.apis = dict(ordinary=p.ordinary, safe=safe, autonomous=p.autonomous,
                         strictly_autonomous=p.strictly_autonomous, pure=p.pure)
        probe.install(ran=self.ran, again=self.again, raises=self.raises)

    # --- what the body does ---
    def ran(self, bound, rest, text):
        if text != self.constant():
            self.made = None
            raise AssertionError(f"a text within the function became {text!r}")
        self.runs.append((list(bound), dict(rest)))
        self.made = [list(bound), dict(rest)]
        return self.made

    def constant(self):
        """A text that looks like the function's own definition, and like calls of it."""
        return f" {self.f}(x) def {self.f}(a): @{self.f}(1)\n    def {self.f}():\n  return {self.f} ({self.f}()) # {self.f}("

    def again(self):
        level = len(self.runs)
        return self.level(level) if self.more and level <= self.times else None

    def raises(self, e):
        self.raised = self.raised or e
        return e

    def level(self, n):
        return {self.name[s]: [v, n] if n else v for s, v in self.values.items()}

    def text(self, e):
        r = self.rng
        pool = r.sample(NAMES, len(e["names"]))
        self.f = r.choice([n for n in FUNCTIONS if n not in pool])
        if "recurse" in e["body"]:
            # another keyword may have the function's name
            extra = [i for i, s in enumerate(e["names"]) if s not in [q["s"] for q in e["sig"]]]
            if extra and r.random() < .5:
                pool[extra[0]] = self.f
        elif r.random() < .3 and pool:
            pool[0] = self.f
        self.name = dict(zip(e["names"], pool))
        self.default = {}
        self.values = {}
        parts, stars = [], False
        for i, q in enumerate(e["sig"]):
            if q["how"] == "keyword" and not stars:
                parts.append("*")
                stars = True
            part = self.name[q["s"]]
            if e["kind"].startswith("annotated"):
                part += ": Nowhere[0]"
            if q["default"]:
                self.default[q["s"]] = r.choice(DEFAULTS).replace("define", self.f)
                part += "=" + self.default[q["s"]]
            parts.append(part)
            if q["how"] == "position" and (i + 1 == len(e["sig"]) or e["sig"][i + 1]["how"] != "position"):
                parts.append("/")
        if "varargs" in e["kind"]:
            i = next((i for i, x in enumerate(parts) if x == "*"), len(parts))
            parts[i:i + 1] = ["*" + ("more" if "bare" not in e["kind"] else "args")]
        if e["kw"]:
            parts.append("**others")
        names = [self.name[q["s"]] for q in e["sig"]]
        body = ["import vprobe as _vp", "_got = _vp.ran((" + "".join(n + ", " for n in names) + "), "
                + ("others" if e["kw"] else "()") + f", {self.constant()!r})"]
        if "inside" in e["kind"]:
            body += ["async def _unused(*a):", "    await a"]
        if "recurse" in e["body"]:
            body += ["_next = _vp.again()", "if _next is not None:",
                     f"    return ['inner', {self.f}(**_next), _got]"]
        body += {"returns": ["return _got"], "recurse": ["return _got"],
                 "raise": ["raise _vp.raises(ValueError(_got))"],
                 "recurse and raise": ["raise _vp.raises(ValueError(_got))"],
                 "raise base": ["raise _vp.raises(" + r.choice(["KeyboardInterrupt", "SystemExit", "GeneratorExit",
                                                                "StopIteration", "StopAsyncIteration"]) + "(_got))"],
                 "raise own": ["class Own(Exception):", "    def __init__(_s, a, b):", "        _s.both = a, b",
                               "    def __str__(_s):", "        raise ArithmeticError", "raise _vp.raises(Own(_got, 1))"],
                 "generator": ["yield _got", "yield from (1, 2)"]}[e["body"]]
        head = f"def {self.f}(" + ", ".join(parts) + ")" + (
            " -> Nowhere" if e["kind"].startswith("annotated") else "") + ":\n"
        return head + "".join("    " + l + "\n" for l in body)

    # --- what is offered ---
    def module(self, text):
        text = MODULE + text
        name = f"<c09 {self.rng.random()}>"
        linecache.cache[name] = (len(text), None, text.splitlines(True), name)
        ns = dict(pth=self.p, functools=functools, __name__="c09", portal_=self.portal, safe=self.apis["safe"])
        flags = 0
        if "Nowhere" in text:
            import __future__
            flags = __future__.annotations.compiler_flag
        exec(compile(text, name, "exec", flags=flags, dont_inherit=True), ns)
        return ns

    def offer(self, kind, api, T):
        f = self.f
        dec = lambda: self.apis[api](portal=self.portal)
        ind = "".join("    " + l + "\n" for l in T.splitlines())
        above = lambda lines: self.module("".join(l + "\n" for l in lines) + T)[f]
        this = "@pth.ordinary(portal=portal_)" if api == "safe" else f"@pth.{api}(portal=portal_)"
        obj = lambda: self.module(T)[f]
        if kind == "decorated":
            return above([this])
        if kind in ("two decorators",):
            return above([this, "@_deco"])
        if kind == "foreign above":
            return above(["@_deco", this])
        if kind == "same decorator twice":
            return above([this, this])
        make = {
            "plain": obj, "unused async inside": obj, "text": lambda: T,
            "annotated with names that do not exist": obj,
            "nested": lambda: self.module(f"def _outer():\n{ind}    return {f}\n")["_outer"](),
            "in a loop": lambda: self.module(f"for _i in (1,):\n{ind}")[f],
            "text decorated": lambda: f"@pth.{api if api != 'safe' else 'ordinary'}()\n" + T,
            "indented text": lambda: ind,
            "function with attributes": lambda: setattr_(obj(), "attr", 1),
            "renamed": lambda: setattr_(obj(), "__name__", "another"),
            "lambda": lambda: self.module("_l = lambda: 1\n")["_l"],
            "named lambda": lambda: setattr_(self.module("_l = lambda x=1: x\n")["_l"], "__name__", f),
            "bound method": lambda: self.module(f"class _A:\n{ind.replace('(', '(_s, ', 1)}\n_b = _A().{f}\n")["_b"],
            "class method": lambda: getattr(self.module(f"class _A:\n    @classmethod\n{ind.replace('(', '(_c, ', 1)}")["_A"], f),
            "static method": lambda: getattr(self.module(f"class _A:\n    @staticmethod\n{ind}")["_A"], f),
            "built-in": lambda: self.rng.choice([len, print, math.sin, isinstance]),
            "type": lambda: self.rng.choice([int, dict, type, ValueError]),
            "class": lambda: self.module(f"class _A:\n{ind}")["_A"],
            "callable object": lambda: self.module("class _A:\n    def __call__(self, x=1): return x\n")["_A"](),
            "partial": lambda: functools.partial(obj()),
            "closure": lambda: self.module(f"def _outer(_c):\n{ind}        _c\n    return {f}\n".replace(
                "_got = _vp", "_c; _got = _vp"))["_outer"](1),
            "async": lambda: self.module("async " + T)[f],
            "async generator": lambda: self.module("async " + T.replace("yield from", "yield ") + "    yield 1\n"
                                                   if "return _got" not in T else f"async def {f}():\n    yield 1\n")[f],
            "varargs": obj, "bare varargs": obj, "text varargs": lambda: T,
            "text async": lambda: "async " + T, "text lambda": lambda: "lambda x: x",
            "text class": lambda: f"class {f}:\n{ind}", "text two": lambda: T + T.replace(f, f + "_2"),
            "text import": lambda: "import os\n" + T, "text expression": lambda: f"{f}(x=1)",
            "empty text": lambda: "", "broken text": lambda: T.replace(":\n", "\n", 1),
            "number": lambda: 7, "none": lambda: None, "bytes": lambda: T.encode(), "list of text": lambda: [T],
            "foreign decorator": lambda: above(["@_deco"]),
            "foreign decorator with call": lambda: above(["@_deco()"]),
            "foreign attribute": lambda: above(["@_own.deco"]),
            "text foreign": lambda: self.rng.choice(["@foreign\n", "@foreign()\n", "@pth.foreign()\n"]) + T,
            "text two decorators": lambda: f"@pth.{api}()\n@pth.ordinary()\n" + T,
            "lru_cache": lambda: functools.lru_cache(obj()),
            "wraps": lambda: self.module("def _d(fn):\n    @functools.wraps(fn)\n    def inner(**kw): return fn(**kw)\n"
                                         "    return inner\n@_d\n" + T)[f],
            "method of a built-in": lambda: "abc".upper, "coroutine": lambda: coroutine(), "module": lambda: math,
        }
        x = make[kind]()
        return dec()(x)

    def step(self, e):
        e = dict(e)
        e["names"] = sorted({q["s"] for q in e["sig"]} | {x for c in e["calls"] for x in c["given"]})
        self.text_ = T = self.text(e)
        accepted, w = [], None
        for i, api in enumerate(e["chain"]):
            try:
                w = self.offer(e["kind"], api, T) if i == 0 else self.apis[api](portal=self.portal)(w)
                accepted.append(True)
                assert w.fn_name == self.f and isinstance(w, self.p.OrdinaryFn if hasattr(self.p, "OrdinaryFn") else object)
            except BaseException as x:
                want = e["o"]["accepted"][i]
                accepted.append(False if not want else f"refused: {type(x).__name__}: {x}; {T}")
                break
        out = []
        for c, want in zip(e["calls"], e["o"]["outcomes"]):
            out.append(self.call(w, e, c) if accepted[-1] is True else "not wrapped")
        if accepted[0] is False:     # nothing is left of a refused definition
            again = self.apis["pure"](portal=self.portal)(f"def {self.f}():\n    return 'defined later'\n")
            if again() != "defined later":
                accepted.append("something is left")
        return dict(accepted=accepted, outcomes=out)

    def call(self, w, e, c):
        self.values = {s: self.given(s) for s in c["given"]}
        self.runs, self.raised, self.made = [], None, None
        self.more = "recurse" in e["body"]
        self.times = min(3, len(c["given"]))
        kw, pos = self.level(0), list(range(c["positional"]))
        pure = e["chain"][-1] == "pure"
        try:
            way = {"call": lambda: w(*pos, **kw), "execute": lambda: w.execute(*pos, **kw),
                   "address": lambda: w.get_address(*pos, **kw).execute(),
                   "run": lambda: w.run(*pos, **kw).get(timeout=0)}[c["way"]]
            result = way()
            if e["body"] == "generator":
                result = list(result)
                if result[1:] != [1, 2]:
                    return f"generated {result}"
                result = result[0]
            depth = 0
            while isinstance(result, list) and result and result[0] == "inner":
                mine = result[2]
                if self.shown(e, c, mine, depth):
                    return self.shown(e, c, mine, depth)
                result, depth = result[1], depth + 1
            if not pure and result is not self.made:
                return "returned something else"
            o = dict(o="returns", depth=depth)
            got, level = result, depth
        except BaseException as x:
            if not self.runs:
                if c["positional"]:
                    return dict(o="refused")
                return dict(o=type(x).__name__) if type(x) is TypeError else f"raised {type(x).__name__}: {x}"
            if x is not self.raised:
                return f"raised {type(x).__name__}: {x}"
            o = dict(o={"recurse and raise": "raise"}.get(e["body"], e["body"]), depth=len(self.runs) - 1)
            got, level = self.made, len(self.runs) - 1
        bad = self.shown(e, c, got, level)
        if bad:
            return bad
        o["bound"] = [dict(s=q["s"], **{"from": "call" if q["s"] in self.values and q["how"] != "position" else "default"})
                      for q in e["sig"]]
        o["rest"] = sorted(s for s in self.values if self.name[s] in got[1])
        return o

    def shown(self, e, c, got, level):
        """None, or what of the values that arrived is not as it should be."""
        given = self.level(level)
        for q, v in zip(e["sig"], got[0]):
            n = self.name[q["s"]]
            want = given[n] if n in given and q["how"] != "position" else eval(self.default.get(q["s"], "'nothing'"))
            if type(v) is not type(want) or v != want:
                return f"{n} is {v!r} and not {want!r}"
            if level == 0 and e["chain"][-1] != "pure" and n in given and q["how"] != "position" and v is not given[n]:
                return f"{n} is a copy"
        for n, v in got[1].items():
            if v != given[n]:
                return f"{n} is {v!r}"
        return None

    def given(self, s):
        if not hasattr(self, "givens"):
            self.givens = {}
        if s not in self.givens:
            self.givens[s] = self.rng.choice(GIVEN)
        return self.givens[s]


def setattr_(f, k, v):
    setattr(f, k, v)
    return f


def coroutine():
    async def c():
        pass
    x = c()
    x.close()
    return x


PLAIN = ["plain", "nested", "text", "text decorated", "decorated", "unused async inside",
         "annotated with names that do not exist", "in a loop", "function with attributes", "indented text", "renamed"]
OTHER = ["lambda", "named lambda", "bound method", "class method", "built-in", "type", "class",
         "callable object", "partial", "closure", "async", "async generator", "varargs", "text varargs", "text async",
         "text lambda", "text class", "text two", "text import", "text expression", "empty text", "broken text",
         "number", "none", "bytes", "list of text", "foreign decorator", "foreign decorator with call",
         "two decorators", "foreign above", "text foreign", "text two decorators", "same decorator twice",
         "lru_cache", "wraps", "static method", "method of a built-in", "coroutine", "module", "bare varargs",
         "foreign attribute"]


def run(ctx):
    inv = dict(invariants=["TypeOK", "Arrives"])
    c = dict(Kinds=set(PLAIN + OTHER), MaxCalls=4, MaxWraps=3, Extras={8, 9},
             Bodies={"returns", "recurse", "raise", "raise base", "raise own", "recurse and raise", "generator"})
    small = lambda: ctx.tlc("OrdinaryFns", constants=dict(c, Slots={1, 2}, Extras={8}, MaxWraps=1, Bodies={"returns"}),
                            next="NextAll", **inv)
    sims = [lambda k=k: ctx.tlc("OrdinaryFns", constants=dict(c, Slots=set(range(1, 2 + k))), simulate=ctx.pick(500, 8000),
                                depth=40, action_constraint="Emit", seed=ctx.seed * 10 + k, **inv) for k in (1, 3, 5)]
    _, *rs = ctx.parallel([small] + sims)
    bs = [dict(init=dict(n=f"{ctx.seed}/{i}/{j}"), events=[l["e"]])
          for i, r in enumerate(rs) for j, l in enumerate(r.lines) if l["k"] == "T"]
    ctx.replay(bs, World, label="wrapping", chunk=10, timeout=120)
