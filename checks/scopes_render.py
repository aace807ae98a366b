"""Programs of NameScopes as Python source.

Which form a token takes rotates: the specification says that it must not matter.
Annotations stand between marks, so that the text can be had with and without them."""
import random
import re

A, Z = "\x01", "\x02"      # around annotations


def _ann(n):
    return f"{A}: {n}{Z}"


def _ret(n):
    return f"{A} -> {n}{Z}"


USE = {  # uses of a name as a statement
    "expr": "{n}", "call": "{n}()", "callarg": "dict(k={n})", "attr": "{n}.q", "item": "{n}[0]",
    "index": "(0,)[{n}]", "fstring": "f'{{{n}}}'", "fspec": "f'{{0:{{{n}}}}}'", "if": "if {n}: pass",
    "while": "while {n}: break", "assert": "assert {n}", "star": "[*{n}]", "dstar": "dict(**{n})",
    "augattr": "{n}.q += 1", "setattr": "{n}.q = 1", "setitem": "{n}[0] = 1", "delattr": "del {n}.q",
    "delitem": "del {n}[0]", "with": "with {n}: pass", "withas": "with {n} as _w: pass",
    "for": "for _i in {n}: pass", "raise": "raise {n}", "raisefrom": "raise int from {n}",
    "except": "try: pass\nexcept {n}: pass", "excepts": "try: pass\nexcept (int, {n}) as _e: pass",
    "finally": "try: pass\nfinally: {n}", "orelse": "for _i in (): pass\nelse: {n}",
    "matchsubject": "match {n}:\n    case _: pass", "matchvalue": "match 0:\n    case {n}.q: pass",
    "matchclass": "match 0:\n    case {n}(): pass", "guard": "match 0:\n    case _ if {n}: pass",
    "matchkey": "match 0:\n    case {{{n}.q: 0}}: pass",
    "decorator": "@{n}\ndef _d(): pass", "decoratorcall": "@{n}(1)\nclass _d: pass",
    "base": "class _b({n}): pass", "metaclass": "class _b(metaclass={n}): pass",
    "default": "def _d(p={n}): pass", "kwdefault": "def _d(*, p={n}): pass",
    "posdefault": "def _d(p={n}, /): pass", "asyncdefault": "async def _d(p={n}): pass",
    "asyncdecorator": "@{n}\nasync def _d(): pass",
    "lambdadefault": "lambda p={n}: 0", "lambdakwdefault": "lambda *, p={n}: 0",
    "listiter": "[0 for _i in {n}]", "geniter": "list(0 for _i in {n})",
    "dictiter": "{{0: 0 for _i in {n}}}", "setiter": "{{0 for _i in {n}}}",
    "ifexp": "0 if {n} else 1", "slice": "()[{n}:]", "compare": "0 < 1 < {n}", "not": "not {n}",
    "lambdabody": "lambda: {n}", "nested": "def _d(): return {n}", "listelt": "[{n} for _i in ()]",
    "method": "class _b:\n    def m(self): return {n}",
    "annassign": "_v: int = {n}", "assign": "_v = {n}", "aug": "_v = 0\n_v += {n}",
    "walrusvalue": "(_v := {n})", "print": "print({n}, end='')", "del": "_v = {n}\ndel _v",
    "tuple": "_v, _w = {n}, 0", "dict": "{{{n}: 0}}", "ddict": "{{**{n}}}", "and": "0 and {n}",
    "deepif": "if 0:\n    pass\nelif 0:\n    while 0:\n        {n}",
}
USE_CLASS = {"classann": "_v: {n} = 0", "classannonly": "_v: {n}"}
USE_DEF = {"return": "return {n}", "returntuple": "return ({n}, 0)"}
USE_ASYNC = {"await": "await {n}", "asyncwith": "async with {n}: pass",
             "asyncfor": "async for _i in {n}: pass"}
# forms whose use is in a scope of its own: not where class-level names are meant
INDIRECT = {"lambdabody", "nested", "listelt", "method"}

BIND = {
    "assign": "{n} = 0", "tuple": "({n}, _v) = (0, 0)", "list": "[_v, [{n}]] = 0, [0]",
    "star": "[_v, *{n}] = (0,)", "chain": "_v = {n} = 0", "aug": "{n} += 1",
    "annassign": "{n}" + _ann("int") + " = 0", "for": "for {n} in (): pass",
    "fortuple": "for _v, ({n}, *_w) in (): pass", "with": "with print() as {n}: pass",
    "withtuple": "with print() as ({n}, _w), print(): pass",
    "except": "try: pass\nexcept Exception as {n}: pass", "exceptstar": "try: pass\nexcept* ValueError as {n}: pass",
    "import": "import {n}", "importdotted": "import {n}.sub.mod", "importas": "import os.path as {n}",
    "fromimport": "from os import {n}", "fromimportas": "from os import path as {n}",
    "importlist": "import os, {n}", "relative": "from . import {n}",
    "matchname": "match 0:\n    case {n}: pass", "matchas": "match 0:\n    case int() as {n}: pass",
    "matchlist": "match 0:\n    case [1, *{n}]: pass", "matchrest": "match 0:\n    case {{'k': 1, **{n}}}: pass",
    "matchkeyword": "match 0:\n    case int(real={n}): pass", "matchor": "match 0:\n    case [{n}] | (1, {n}): pass",
    "def": "def {n}(): pass", "asyncdef": "async def {n}(): pass", "class": "class {n}: pass",
    "deepif": "if 0:\n    pass\nelse:\n    while 0:\n        {n} = 0", "infinally": "try: pass\nfinally: {n} = 0",
    "orelse": "try: pass\nexcept Exception: pass\nelse: {n} = 0", "starexpr": "*{n}, = ()",
}
BIND_ASYNC = {"asyncfor": "async for {n} in (): pass", "asyncwith": "async with print() as {n}: pass"}

MENTION = {
    "attr": "(0).{n}", "keyword": "dict({n}=0)", "string": "'{n}'", "fstring": "f'{n}'",
    "comment": "pass  # {n}", "attrstore": "_v = dict\n_v.{n} = 0", "deepattr": "_v = 0\n_v.q.{n}.r",
    "modulefrom": "from {n} import _v", "importas": "import {n} as _v", "importaspath": "import os.{n} as _v",
    "matchkw": "match 0:\n    case int({n}=0): pass", "matchattr": "_v = 0\nmatch 0:\n    case _v.{n}: pass",
    "paramann": "def _d(p" + A + ": {n}" + Z + "): pass", "retann": "def _d()" + A + " -> {n}" + Z + ": pass",
    "nestedparam": "def _d({n}): return {n}", "lambdaparam": "lambda {n}: {n}",
    "comptarget": "[{n} for {n} in ()]", "compif": "{{{n}: 0 for {n} in () if {n}}}",
    "nestedlocal": "def _d():\n    {n} = 0\n    return {n}", "classlocal": "class _b:\n    {n} = 0",
    "methodname": "class _b:\n    def {n}(self): pass", "bytes": "b'{n}'",
    "callkw": "print(end='', **dict({n}=0))", "importedname": "from os import {n} as _v",
    "dictkey": "_v = dict()\n_v['{n}'] = 0",
}
MENTION_FN = {"localann": "_v" + _ann("{n}") + " = 0", "localannonly": "_v = 0\n_w" + A + ": {n} = 0" + Z}

EXPR_USE = {
    "name": "{n}", "call": "{n}()", "attr": "{n}.q", "item": "{n}[0]", "callarg": "dict(k={n})",
    "fstring": "f'{{{n}}}'", "ifexp": "(0 if {n} else 1)", "star": "[*{n}]", "lambdadefault": "(lambda p={n}: 0)",
    "listiter": "[0 for _i in {n}]", "geniter": "list(0 for _i in {n})", "compare": "(0 < {n})",
    "lambdabody": "(lambda: {n})", "listelt": "[{n} for _i in ()]", "ddict": "{{**{n}}}",
}
EXPR_MENTION = {
    "attr": "(0).{n}", "keyword": "dict({n}=0)", "string": "'{n}'", "fstring": "f'{n}'",
    "lambdaparam": "(lambda {n}: {n})", "comptarget": "[{n} for {n} in ()]", "number": "0",
    "lambdakw": "(lambda *, {n}=0: {n})", "lambdastar": "(lambda *{n}, **_k: {n})",
}
WALRUS = {"stmt": "({n} := 0)", "if": "if ({n} := 0): pass", "arg": "dict(k=({n} := 0))",
          "fstring": "f'{{({n} := 0)}}'", "deco": "@({n} := list)\ndef _d(): pass", "default": "def _d(p=({n} := 0)): pass"}
EXPR_WALRUS = {"expr": "({n} := 0)", "and": "(0 or ({n} := 1))", "arg": "dict(k=({n} := 0))"}
YIELD = {"stmt": "yield", "value": "yield 0", "assign": "_v = yield 0", "arg": "dict(k=(yield))",
         "if": "if (yield): pass", "decorator": "@(yield)\ndef _d(): pass", "default": "def _d(p=(yield)): pass",
         "base": "class _b((yield)): pass", "iter": "[0 for _i in (yield)]", "lambdadefault": "lambda p=(yield 1): 0",
         "loop": "while 0:\n    yield 1", "return": "return (yield)"}
YIELD_FROM = {"from": "yield from ()", "fromassign": "_v = yield from ()"}


class Renderer:
    def __init__(self, seed):
        self.rng = random.Random(f"forms/{seed}")
        self.used = {}
        self.no_annotations = set()

    def pick(self, context, forms):
        """A form of those least used in this context."""
        c = self.used.setdefault(context, {})
        least = min(c.get(f, 0) for f in forms)
        f = self.rng.choice([f for f in forms if c.get(f, 0) == least])
        c[f] = c.get(f, 0) + 1
        return forms[f]

    def prepare(self, toks):
        """Which tokens decide alone about a name: their forms rotate on their own."""
        count = {}
        for t in toks:
            if t["t"] == "open":
                for n in list(t["ns"]) + [t["m"]]:
                    count["bind", n] = count.get(("bind", n), 0) + 1
            count[t["t"], t["n"]] = count.get((t["t"], t["n"]), 0) + 1
        self.count = count

    def critical(self, t):
        c, n = self.count, t["n"]
        binds = c.get(("bind", n), 0) + c.get(("walrus", n), 0)
        uses = c.get(("use", n), 0)
        if t["t"] in ("bind", "walrus"):
            return binds == 1 and uses > 0
        if t["t"] == "use":
            return uses == 1 and binds == 0
        return binds == 0 and uses == 0

    def tree(self, toks):
        root, stack = None, []
        for t in toks:
            if t["t"] == "open":
                node = dict(kind=t["n"], name=t["m"], params=sorted(t["ns"]), items=[])
                if stack:
                    stack[-1]["items"].append(node)
                else:
                    root = node
                stack.append(node)
            elif t["t"] == "close":
                stack.pop()
            else:
                stack[-1]["items"].append(t)
        return root

    def params(self, names, kind, default):
        names = list(names)
        self.rng.shuffle(names)
        groups = dict(pos=[], arg=[], var=[], kwonly=[], kw=[])
        for n in names:
            opts = ["pos", "arg", "arg", "kwonly"] + (["kw"] if not groups["kw"] else [])
            if not default and not groups["var"]:
                opts.append("var")
            groups[self.rng.choice(opts)].append(n)
        d = "=0" if default else ""
        an = (lambda: "") if kind == "lambda" else (lambda: self.rng.choice(["", "", A + ": int" + Z]))
        out = [n + an() + d for n in groups["pos"]] + (["/"] if groups["pos"] else [])
        out += [n + an() + d for n in groups["arg"]]
        if groups["var"]:
            out.append("*" + groups["var"][0])
        elif groups["kwonly"]:
            out.append("*")
        out += [n + an() + d for n in groups["kwonly"]]
        out += ["**" + n for n in groups["kw"]]
        return ", ".join(out)

    def block(self, node):
        """The lines of the body of a function or a class."""
        out, kind = [], node["kind"]
        declared = {t["n"] for t in node["items"] if t.get("t") in ("global", "nonlocal")}
        for t in node["items"]:
            if "kind" in t:
                if t["kind"] in ("def", "async", "class"):
                    out += self.define(t)
                else:
                    out.append(self.rng.choice(["{}", "_v = {}", "print({}, end='')"]).format(self.expr(t)))
                continue
            n = t["n"]
            if t["t"] == "use":
                forms = dict(USE)
                if kind == "class":
                    forms |= USE_CLASS
                    forms = {k: v for k, v in forms.items() if k not in INDIRECT}
                if kind == "def":
                    forms |= USE_DEF
                if kind == "async":
                    forms |= USE_ASYNC
            elif t["t"] == "bind":
                forms = dict(BIND)
                if kind == "async":
                    forms |= BIND_ASYNC
                if n in declared:
                    del forms["annassign"]
                    if n == "f" or kind == "class":
                        pass
            elif t["t"] == "mention":
                forms = MENTION | (MENTION_FN if kind != "class" else {})
                if n in self.no_annotations:    # there, even an annotation makes a closure
                    forms = {k: v for k, v in forms.items() if A not in v}
            elif t["t"] == "walrus":
                forms = WALRUS
            elif t["t"] == "yield":
                forms = dict(YIELD) | (YIELD_FROM if kind == "def" else {})
                if kind == "async":
                    del forms["return"]
            elif t["t"] in ("global", "nonlocal"):
                out.append(f"{t['t']} {n}")
                continue
            out += self.pick((t["t"], kind, self.critical(t)), forms).format(n=n).split("\n")
        return out or ["pass"]

    def define(self, node):
        kind, name = node["kind"], node["name"]
        body = self.block(node)
        if kind == "class":
            head = f"class {name}:"
        else:
            head = f"{'async ' if kind == 'async' else ''}def {name}({self.params(node['params'], kind, False)}):"
        return [head] + ["    " + l for l in body]

    def expr(self, node):
        kind, parts = node["kind"], []
        for t in node["items"]:
            if "kind" in t:
                parts.append(("nested", self.expr(t)))
                continue
            forms = dict(use=EXPR_USE, mention=EXPR_MENTION, walrus=EXPR_WALRUS,
                         **{"yield": {"expr": "(yield)", "value": "(yield 1)", "from": "(yield from ())"}})[t["t"]]
            parts.append((t["t"], self.pick((t["t"], kind, self.critical(t)), forms).format(n=t["n"])))
        if kind == "lambda":
            body = "[" + ", ".join(p for _, p in parts) + "]"
            p = self.params(node["params"], "lambda", False)
            return f"(lambda {p}: {body})" if p else f"(lambda: {body})"
        elts, ifs, iters = [], [], []
        for k, p in parts:
            where = self.rng.choice([elts, elts, ifs] + ([iters] if k == "use" else []))
            where.append(p)
        names = node["params"]
        if len(names) == 1:
            target = self.rng.choice(["{} in ()", "_t, {} in ()", "*{}, _t in ()", "[_t, ({}, _u)] in ()"]).format(*names)
        else:
            target = self.rng.choice(["{}, {} in ()", "{} in () for {} in ()", "({}, *{}) in ()"]).format(*names)
        tail = f"for {target}" + "".join(f" if {p}" for p in ifs) + "".join(f" for _t in {p}" for p in iters)
        elt = "(" + "".join(p + ", " for p in elts) + ")"
        return self.rng.choice(["[{} {}]", "{{{} {}}}", "{{{}: 0 {}}}", "{{0: {} {}}}", "list({} {})"]).format(elt, tail)

    def program(self, toks):
        """The source of f, with the marks around annotations."""
        self.prepare(toks)
        root = self.tree(toks)
        decl = [t for t in root["items"] if t.get("t") in ("global", "nonlocal")]
        rest = dict(root, items=[t for t in root["items"] if t.get("t") not in ("global", "nonlocal")])
        lines = [f"def f({self.params(root['params'], 'def', True)}):"]
        lines += ["    " + l for l in self.declarations(decl)]
        lines += ["    import vprobe", "    if vprobe.ran(): return 0"]
        declared = {t["n"] for t in decl}
        rest["items"] = decl + rest["items"]
        body = self.block(rest)[len(decl):]
        lines += ["    " + l for l in body]
        return "\n".join(lines) + "\n"

    def declarations(self, decl):
        out = []
        for what in ("global", "nonlocal"):
            ns = [t["n"] for t in decl if t["t"] == what]
            if len(ns) > 1 and self.rng.random() < .5:
                out.append(f"{what} {', '.join(ns)}")
            else:
                out += [f"{what} {n}" for n in ns]
        return out


def with_annotations(text):
    return text.replace(A, "").replace(Z, "")


def without_annotations(text):
    return re.sub(f"{A}[^{Z}]*{Z}", "", text)


def signature(toks):
    """How the names of a program are found: for every use, what the scopes around it
    do with the name."""
    scopes, stack, refs = [], [], []
    for t in toks:
        if t["t"] == "open":
            if stack and t["n"] in ("def", "async", "class"):
                scopes[stack[-1]]["binds"].add(t["m"])
            scopes.append(dict(kind=t["n"], parent=stack[-1] if stack else None, params=set(t["ns"]),
                               binds=set(), walrus=set(), g=set(), n=set()))
            stack.append(len(scopes) - 1)
        elif t["t"] == "close":
            stack.pop()
        elif t["t"] == "use":
            refs.append((stack[-1], t["n"]))
        elif t["t"] == "bind":
            scopes[stack[-1]]["binds"].add(t["n"])
        elif t["t"] == "walrus":
            scopes[stack[-1]]["walrus"].add(t["n"])
        elif t["t"] == "global":
            scopes[stack[-1]]["g"].add(t["n"])
        elif t["t"] == "nonlocal":
            scopes[stack[-1]]["n"].add(t["n"])
    out = set()
    for i, n in refs:
        chain = []
        while i is not None:
            s = scopes[i]
            chain.append((s["kind"],) + tuple(n in s[k] for k in ("params", "binds", "walrus", "g", "n")))
            i = s["parent"]
        out.add(tuple(chain))
    return tuple(sorted(out))


def cover(rng, events, n):
    """n of the events, those first whose names are found in ways not yet seen."""
    events, count, order = list(events), {}, []
    rng.shuffle(events)
    events.sort(key=lambda e: len(e["toks"]))
    for i, e in enumerate(events):
        sig = signature(e["toks"])
        c = count[sig] = count.get(sig, 0) + 1
        order.append((c, i))
    order.sort()
    return [events[i] for _, i in order[:n]], len(count)
