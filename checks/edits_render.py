"""Programs of CodeEdits.tla as text, in many styles."""
import ast
import random

NL = "\x01"      # a line break inside a string: what follows is not indented

# an expression, and other ways to write it
EXPRS = {
    1: ["'a b'", '"a b"', "('a b')", "'a' ' b'", "('a '\n    'b')"],
    2: ["'a  b'", '"a  b"'],
    3: ["' a b'"],
    4: ["'# no comment'", '"# no comment"'],
    5: ["'#'", '"""#"""'],
    6: ["'two" + "\\n" + "  lines'", "'''two" + NL + "  lines'''", '"""two' + NL + '  lines"""'],
    7: ["'''two" + NL + " lines'''", "'two\\n lines'"],
    8: ["'''two " + NL + NL + "  lines'''", "'two \\n\\n  lines'"],
    9: ["'''two" + NL + NL + "  lines'''"],
    10: ["'tab\\tchar'", "'tab\tchar'"],
    11: ["'tab char'"],
    12: ["1000", "1_000", "0x3e8", "(1000)"],
    13: ["1000.0", "1e3", "10.0e2"],
    14: ["True"],
    15: ["1"],
    16: ["-2 ** 2", "-(2 ** 2)", "(-2**2)"],
    17: ["(-2) ** 2", "((-2)**2)"],
    18: ["7 - (3 - 1)", "7-(3-1)"],
    19: ["7 - 3 - 1", "(7-3) -1"],
    20: ["[1, 2]", "[1,2,]", "[\n1,\n  2]"],
    21: ["(1, 2)", "(1,2,)"],
    22: ["{1, 2}", "{1,2}"],
    23: ["{1: 2}", "{ 1:2 }"],
    24: ["(1,)"],
    25: ["b'a\\x00'", 'b"a\\0"'],
    26: ["'\\\\d'", "r'\\d'"],
    27: ["'d'"],
    28: ["f'{1 + 1:>4}'", 'f"{1+1:>4}"', "f'{(1+1):>4}'"],
    29: ["f'{1 + 1:>5}'"],
    30: ["f'{1 + 1}: >4'"],
    31: ["f'{1 + 1},{2}'", 'f"{1+1},{2}"'],
    32: ["f'{1 + 1}, {2}'"],
    33: ["f'{1+1=}'", 'f"{1+1=}"'],
    34: ["f'{1 + 1=}'"],
    35: ["f'{{1, 2}}'", 'f"{{1, 2}}"'],
    36: ["f'{ {1, 2} }'", 'f"{ {1,2} }"'],
    37: ["f'{ {1: 2}[1] }'"],
    38: ["f'{1!r:>{2 + 2}}#'"],
    39: ["f'{\"a\" if 1 else \"b\"}  {chr(10)}'"],
    40: ["f'''two" + NL + "  lines {1}'''", "f'two\\n  lines {1}'"],
    41: ["[i for i in range(5) if i % 2]", "[ i for i in range( 5 )if i%2 ]",
         "[i\n  for i in range(5)\n  if i % 2]"],
    42: ["[i for i in range(5) if not i % 2]"],
    43: ["(lambda v=2, *, w=3: v * w)()", "(lambda v=2,*,w=3:v*w)()", "(lambda v = 2, * , w = 3 : (v*w))()"],
    44: ["(lambda v=3, *, w=3: v * w)()"],
    45: ["1 == True", "(1==True)"],
    46: ["1 is True"] if 0 else ["() is None", "( ) is None"],
    47: ["1 != True"],
    48: ["not 'a' in 'abc'", "not('a' in 'abc')"],
    49: ["'a' not in 'abc'"],
    50: ["1 < 2 < 3", "1<2<3", "(1 < 2 < 3)"],
    51: ["(1 < 2) < 3"],
    52: ["'abcdef'[1:4:2]", "'abcdef'[1 : 4 : 2]"],
    53: ["'abcdef'[1:4]"],
    54: ["[*(1, 2), 3]", "[ *(1,2),3 ]"],
    55: ["dict(a=1, **{'b': 2})", "dict(a = 1, ** {'b':2})", "dict(\na=1,\n    **{'b': 2}\n)"],
    56: ["'x' if x else 'y'", "('x' if x else 'y')", "'x'if x else'y'"],
    57: ["'y' if x else 'x'"],
    58: ["'" + "long " * 30 + "'", '"' + "long " * 30 + '"', "('" + "long " * 10 + "'\n  '" + "long " * 20 + "')"],
    59: ["'" + "long " * 29 + "long'"],
    60: ["sum([" + ", ".join(str(1000 + i) for i in range(40)) + "])",
         "sum([" + ",\n ".join(str(1000 + i) for i in range(40)) + ",\n])"],
    61: ["'aaaaaaaaaaaaaaaaaaaa' + 'bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb' + 'c # ccccccccccccccccccccccc' + 'ddddd'",
         "'aaaaaaaaaaaaaaaaaaaa'+'bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb' \\\n  + 'c # ccccccccccccccccccccccc' + 'ddddd'"],
    62: ["'\\ud800\\u2022\\x00'", "'\\ud800\u2022\\0'"],
    63: ["'\u2022'", "'\\u2022'", "'\\N{BULLET}'"],
    64: ["1e309"], 65: ["-1e309", "- 1e309"], 66: ["0.1 + 0.2", "0.1+.2"], 67: ["1j * 1j"],
    68: ["(y := 3) + y", "( y:=3 )+y"] if 0 else ["{**{'a': 1}, 'b': 2}", "{** {'a':1},'b':2}"],
    69: ["type(1) == type(True)", "type(1)==type(True)"],
    70: ["'import os, sys; x = 1'"], 71: ["'import os,sys;x=1'"],
    72: ["'def f(x): pass'"], 73: ["'@pth.pure()'"],
    74: ["'quotes \\' and \" and \\'\\'\\''", '"quotes \' and \\" and \'\'\'"'],
    75: ["1 if x else 2 if not x else 3", "1 if x else (2 if not x else 3)"],
    76: ["(1 if x else 2) if not x else 3"],
    77: ["5 // 2 % 3", "5//2%3"], 78: ["5 // (2 % 3)"], 79: ["5 / 2", "5/2"],
    80: ["~5 & 3 | 8 ^ 1", "~5&3|8^1"], 81: ["(1 or 0) and 2"], 82: ["1 or 0 and 2", "1 or (0 and 2)"],
    83: ["2 ** -1", "2**-1"], 84: ["'%s  %s' % (1, 2)", "'%s  %s'%(1,2)"], 85: ["...", "Ellipsis"][:1],
    86: ["None"], 87: ["max(*[1, 2], 3, key=lambda v: -v)", "max(* [1,2],3,key = lambda v:-v)"],
    88: ["{k: v for k, v in zip('ab', (1, 2)) if v > 1}", "{k:v for k,v in zip('ab',(1,2))if v>1}"],
    89: ["'a;b'"], 90: ["'a; b'"], 91: ["'\\r\\n'"], 92: ["'\\n'"], 93: ["'trailing  '"], 94: ["'trailing'"],
}
EXPRS[46] = ["() is None", "( ) is None"]
DEFAULTS = {v for v, xs in EXPRS.items() if " x " not in xs[0] and "\n" not in "".join(xs)}

# statements; a style may also give their variables annotations
STMTS = {
    193: ["import math\nimport cmath as m\nt.append((math.pi, m.pi))", "import math, cmath as m\nt.append((math.pi, m.pi))",
          "import math,cmath as m; t.append((math.pi, m.pi))"],
    194: ["w = {(f'{OrdinaryFn}', 0 if OrdinaryFn else 1): 0 for *OrdinaryFn, _t in ()}\nimport os, math\nt.append(math.pi)",
          "w = {(f'{OrdinaryFn}', (0 if OrdinaryFn else 1),): 0 for *OrdinaryFn, _t in ()}\nimport os\nimport math\nt.append(math.pi)"],
    195: ["if x:\n    import math, cmath\nelse:\n    import cmath, math\nt.append((math.pi, cmath.pi))",
          "if x: import math,cmath\nelse: import cmath,math\nt.append((math.pi, cmath.pi))"],
    101: ["a = 1\na += 2\nt.append(a)", "a = 1; a += 2; t.append(a)", "a=1\na+=2\nt.append(a)",
          "@a: int = 1\na += 2\nt.append(a)", "@a: int\na = 1\na += 2\nt.append(a)"],
    102: ["a = 1\na -= 2\nt.append(a)"],
    103: ["try:\n    raise KeyError('k')\nexcept (KeyError, ValueError) as e:\n    t.append(e.args)\nelse:\n    t.append(0)",
          "try: raise KeyError('k')\nexcept(KeyError,ValueError)as e: t.append(e.args)\nelse: t.append(0)"],
    104: ["try:\n    raise KeyError('k')\nexcept ValueError as e:\n    t.append(e.args)\nexcept KeyError:\n    t.append(2)"],
    105: ["import math\nt.append(math.pi)", "import  math\nt.append( math.pi )"],
    106: ["from math import pi as p, e as q\nt.append((p, q))", "from math import pi as p,e as q\nt.append((p,q))",
          "from math import (pi as p,\n   e as q,)\nt.append((p, q))"],
    107: ["from math import e as p, pi as q\nt.append((p, q))"],
    108: ["b = c = [1]\nc.append(2)\nt.append(list(b))", "b=c=[1]; c.append(2); t.append(list(b))"],
    109: ["b, *c = (1, 2, 3)\nt.append((b, c))", "b, *c = 1, 2, 3\nt.append((b,c))", "(b, *c) = (1, 2, 3)\nt.append((b, c))"],
    110: ["for a in (1, 2):\n    pass\nelse:\n    t.append(a)", "for a in(1,2): pass\nelse: t.append(a)"],
    111: ["for a in (1, 2):\n    break\nelse:\n    t.append(a)\nt.append(a)"],
    112: ["a = 0\nwhile a < 3:\n    a += 1\n    if a == 2:\n        continue\nt.append(a)",
          "a = 0\nwhile(a<3):\n        a += 1\n        if a==2: continue\nt.append(a)"],
    113: ["def g(a, b=2, *c, d, e=5, **k):\n    return (a, b, c, d, e, k)\nt.append(g(1, d=4, z=6))",
          "def g(a,b = 2,*c,d,e = 5,**k): return (a,b,c,d,e,k)\nt.append(g(1,d=4,z=6))",
          "@def g(a: int, b: 'str' = 2, *c: object, d: [1], e: dict[str, int]=5, **k: 'x') -> None:\n    return (a, b, c, d, e, k)\nt.append(g(1, d=4, z=6))",
          "#def g(a, b=2, *c, d, e=5, **k):\n    'a docstring'\n    return (a, b, c, d, e, k)\nt.append(g(1, d=4, z=6))"],
    114: ["def g(a, b=3, *c, d, e=5, **k):\n    return (a, b, c, d, e, k)\nt.append(g(1, d=4, z=6))"],
    115: ["class A:\n    v = 1\n\n    def m(self, w=2):\n        return self.v + w\nt.append(A().m())",
          "class A:\n    v = 1\n    def m(self,w = 2): return self.v+w\nt.append(A().m())",
          "@class A:\n    v = 1\n\n    def m(self: object, w: int=2) -> int:\n        return self.v + w\nt.append(A().m())",
          "#class A:\n    '''About A.\n    '''\n    v = 1\n\n    def m(self, w=2):\n        \"about m\"\n        return self.v + w\nt.append(A().m())"],
    116: ["class A:\n    v = 1\n\n    def m(self, w=3):\n        return self.v + w\nt.append(A().m())"],
    117: ["class A:\n    v: int = 1\nt.append(list(A.__annotations__))", "class A:\n    v : int=1\nt.append(list(A.__annotations__))"],
    118: ["class A:\n    w: int = 1\nt.append(list(A.__annotations__))"],
    119: ["match (x, 1):\n    case (0, y) if y:\n        t.append('zero')\n    case _:\n        t.append('other')",
          "match(x,1):\n  case (0,y)if y: t.append('zero')\n  case _: t.append('other')"],
    120: ["match (x, 1):\n    case (1, y) if y:\n        t.append('zero')\n    case _:\n        t.append('other')"],
    121: ["a = 1\ndel a\nt.append('gone')", "a = 1; del a; t.append('gone')", "a = 1; del(a); t.append('gone')"],
    122: ["assert True, 'why'\nt.append('asserted')", "assert(True),'why'\nt.append('asserted')"],
    123: ["async def g():\n    return 1\nc = g()\ntry:\n    c.send(None)\nexcept StopIteration as e:\n    t.append(e.value)",
          "async  def g(): return 1\nc = g()\ntry: c.send(None)\nexcept StopIteration as e: t.append(e.value)",
          "@async def g() -> int:\n    return 1\nc = g()\ntry:\n    c.send(None)\nexcept StopIteration as e:\n    t.append(e.value)"],
    124: ["def g():\n    n = 0\n\n    def h():\n        nonlocal n\n        n += 1\n        return n\n    return h() + h()\nt.append(g())",
          "def g():\n  n = 0\n  def h():\n     nonlocal n\n     n += 1\n     return n\n  return h() + h()\nt.append(g())"],
    125: ["def g():\n    n = 0\n\n    def h():\n        n = 0\n        n += 1\n        return n\n    return h() + h()\nt.append(g())"],
    126: ["def g():\n    yield 1\n    yield from (2, 3)\nt.append(list(g()))", "def g():\n\tyield 1\n\tyield from(2,3)\nt.append(list(g()))"],
    127: ["if x == 0:\n    t.append('a')\nelif x == 1:\n    t.append('b')\nelse:\n    t.append('c')",
          "if x==0: t.append('a')\nelif x==1: t.append('b')\nelse: t.append('c')",
          "if x == 0:\n    t.append('a')\nelse:\n    if x == 1:\n        t.append('b')\n    else:\n        t.append('c')"],
    128: ["if x == 0:\n    t.append('a')\nif x == 1:\n    t.append('b')\nelse:\n    t.append('c')"],
    129: ["import contextlib\nwith contextlib.nullcontext(1) as a, contextlib.nullcontext(2) as b:\n    t.append((a, b))",
          "import contextlib\nwith (contextlib.nullcontext(1) as a,\n      contextlib.nullcontext(2) as b):\n    t.append((a, b))"],
    130: ["class A:\n    pass\no = A()\no.v = 1\nt.append(o.v)", "@class A:\n    pass\no = A()\no.v: int = 1\nt.append(o.v)",
          "class A: pass\no = A(); o.v = 1\nt.append(o.v)", "#class A:\n    'only this'\no = A()\no.v = 1\nt.append(o.v)"],
    190: ["if x == 0:\n    pass\nt.append('nothing')", "@if x == 0:\n    z: int\nt.append('nothing')"],
    191: ["for a in (1, 2):\n    pass\nt.append('nothing more')", "@for a in (1, 2):\n    z: int\nt.append('nothing more')"],
    192: ["try:\n    t.append('tried')\nfinally:\n    pass", "@try:\n    t.append('tried')\nfinally:\n    z: int"],
    131: ["a = {}\na['k'] = 1\nt.append(a)", "@a: dict[str, int] = {}\na['k']: int = 1\nt.append(a)"],
    132: ["def g():\n    pass\nt.append(g())", "#def g():\n    'all there is'\nt.append(g())", "def g(): pass\nt.append(g())",
          "#def g():\n    '''one'''\n    '''two'''\nt.append(g())"],
    133: ["def g():\n    return 'all there is'\nt.append(g())"],
    134: ["def g():\n    1\n    'no docstring'\n    return 2\nt.append(g())"],
    135: ["g = lambda a, b=1: (a, b)\nt.append(g(0))", "g = lambda a,b = 1:(a,b)\nt.append(g(0))"],
    136: ["def g(a, b=1):\n    return (a, b)\nt.append(g(0))"],
    137: ["try:\n    t.append('a')\nfinally:\n    t.append('b')", "try: t.append('a')\nfinally: t.append('b')"],
    138: ["t.append('a')\nt.append('b')", "t.append('a'); t.append('b')", "t.append('a');t.append('b');"],
    139: ["t.append('b')\nt.append('a')"],
    140: ["import functools\n\n\n@functools.lru_cache\ndef g(a):\n    return a\nt.append(g(1))",
          "import functools\n@functools.lru_cache\ndef g(a): return a\nt.append(g(1))"],
    141: ["def g(a):\n    return a\nt.append(g(1))"],
    142: ["def g(a, /, b):\n    return (a, b)\nt.append(g(1, b=2))", "def g(a,/,b): return (a,b)\nt.append(g(1,b=2))"],
    143: ["if x:\n    pass\nt.append('p')", "if x: pass\nt.append('p')", "if (x): pass\nt.append('p')"],
}
# variables must not be declared before every assignment of theirs where a scope sees them otherwise
SHAPES = {0: "(t, x=0, d={d})", 1: "(t, *, x=0, d={d})", 2: "(t, x=0, d={d}, **more)", 3: "(x=0, t=None, d={d})",
          4: "(t, x=(0), d={d}, e=1)", 5: "(t, x=0, *, d={d})"}
ANNOTATED = {0: "(t: list, x: 'int'=0, d: object={d}) -> None", 1: "(t, *, x: int=0, d: dict[str, int]={d})",
             2: "(t, x=0, d: 'x'={d}, **more: int) -> 'list'", 3: "(x: int=0, t: None=None, d={d})",
             4: "(t, x: (1, 2)=(0), d={d}, e: [int]=1) -> [1]", 5: "(t, x=0, *, d: 'a # b'={d}) -> {{}}"}
DIMS = ["comments", "blank", "docs", "format", "indent", "annot", "decorator", "function"]

DECORATORS = ["@pth.ordinary()", "@ordinary()", "@pth.autonomous()", '@pth.strictly_autonomous(island_name="x")',
              "@pth.pure(island_name='x', guards=None)", "@autonomous(\n    island_name = None,\n)", 
              "@ pure ( )"]
COMMENTS = ["# a comment", "#def f(x):", "#", "#  'string", '# """', "#: x = 1", "# \u2022", "#!", "# type: ignore", "# noqa"]
DOCS = ['"""A docstring"""', "'A docstring'", '"""Two' + NL + NL + '      lines' + NL + '"""', "'# hash'", "r'raw \\d'",
        "'def g(x): pass'", "'''" + NL + "def other(y):" + NL + "    return 2" + NL + "'''", "'@pth.pure()'",
        "'a' 'b'", "('in parens')", '""']


class Style:
    def __init__(self, dims, rng):
        self.dims, self.rng = set(dims), rng
        self.unit = rng.choice(["\t", "  ", " ", "      ", "    "]) if "indent" in self.dims else "    "

    def on(self, dim, p=.4):
        return dim in self.dims and self.rng.random() < p

    def expr(self, v):
        xs = EXPRS[v]
        return self.rng.choice(xs) if "format" in self.dims else xs[0]

    def stmt(self, v, in_class):
        xs = [STMTS[v][0]] + [s for s in STMTS[v][1:] if (
            "annot" in self.dims and not in_class if s[0] == "@" and s[1:6] != "class" and s[1:4] != "def" and s[1:6] != "async"
            else "annot" in self.dims if s[0] == "@" else "docs" in self.dims if s[0] == "#" else "format" in self.dims)]
        s = self.rng.choice(xs)
        return s[1:] if s[0] in "@#" and not s.startswith("@functools") else s


def tokens_safe(line):
    """May a comment or blanks follow on this line?"""
    return not line.endswith("\\") and NL not in line


def statement_lines(s, style, in_class, n):
    """The lines of a statement without its block, and what opens the block."""
    k, v = s["k"], s["v"]
    x = style.on
    if k == "expr":
        e = style.expr(v)
        return [f"t.append({e})" if "\n" not in e or NL in e else f"t.append({e})"], None
    if k == "stmt":
        return [style.stmt(v, in_class)], None
    if k in ("return", "break"):
        return [k + (";" if x("format") else "")], None
    if k == "if":
        return [], f"if x=={v} :" if x("format") else f"if x == {v}:"
    if k == "match":
        return [f"match( x ) :" if x("format") else "match x:"], f"case {v}:"
    if k == "for":
        r = ["range(2)", "(7,)"][v]
        return [], f"for _i in {r} :" if x("format") else f"for _i in {r}:"
    if k == "while":
        return [], "while(True):" if x("format") else "while True:"
    if k == "try":
        return [], "try :" if x("format") else "try:"
    if k == "with":
        return ["import contextlib"], "with contextlib.nullcontext( ) :" if x("format") else "with contextlib.nullcontext():"
    if k == "def":
        a = x("annot", .7)
        return [], f"def _g{n}(" + ("a: int=0, *, b: 'B'=1" if a else "a=0, *, b=1") + ")" + (" -> None" if a else "") + ":"
    return [], f"class _C{n} :" if x("format") else f"class _C{n}:"


def decorate(text, indent, style):
    """Add comments, blank lines, trailing blanks to the (possibly many) lines of text."""
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        last = i == len(lines) - 1 or not open_at(lines[:i + 1])
        if last and tokens_safe(l):
            if style.on("comments", .25):
                l += style.rng.choice(["  ", " ", ""]) + style.rng.choice(COMMENTS)
            elif style.on("blank", .25):
                l += style.rng.choice([" ", "\t", "   "])
        out.append(indent + l if not continued(lines, i) else l)
    return out


def open_at(lines):
    """Does a bracket, a string or a backslash keep the logical line open?"""
    import tokenize
    import io
    s = "\n".join(lines).replace(NL, "\n")
    if s.endswith("\\"):
        return True
    try:
        for _ in tokenize.generate_tokens(io.StringIO(s + "\n").readline):
            pass
    except tokenize.TokenError:
        return True
    except IndentationError:
        return False
    return False


def continued(lines, i):
    return i > 0 and open_at(lines[:i])


def between(indent, style):
    out = []
    while style.on("comments", .25):
        out.append(style.rng.choice([indent, "", indent + "   ", " "]) + style.rng.choice(COMMENTS))
    while style.on("blank", .25):
        out.append(style.rng.choice(["", indent, "   ", "\t"]))
    return out


def docstrings(indent, style, scope="def"):
    out = []
    while style.on("docs", .6) and len(out) < 3:
        out += between(indent, style)
        out.append(indent + style.rng.choice(DOCS))
    return out


def block(stmts, d, indent, style, within, counter):
    out, i = [], 0
    while i < len(stmts):
        s = stmts[i]
        j = i + 1
        while j < len(stmts) and stmts[j]["d"] > d:
            j += 1
        counter[0] += 1
        n = counter[0]
        in_class = within == "class"
        out += between(indent, style)
        pre, opener = statement_lines(s, style, in_class, n)
        if s["k"] == "match":
            inner = indent + style.unit
            out += [indent + pre[0]] + between(inner, style) + [inner + opener]
            out += block(stmts[i + 1:j], d + 1, inner + style.unit, style, within, counter)
            i = j
            continue
        for p in pre:
            # one statement's inner blocks keep the unit they are written with
            out += decorate(p, indent, style)
        if opener:
            inner = indent + style.unit
            body = []
            if s["k"] in ("def", "class"):
                body += docstrings(inner, style)
            body += block(stmts[i + 1:j], d + 1, inner, style,
                          s["k"] if s["k"] in ("def", "class") else within, counter)
            if s["k"] == "while":
                body.append(inner + "break")
            if len(body) == 1 and style.on("format") and one_line(body[0], s, stmts[i + 1:j]):
                out.append(indent + opener + style.rng.choice([" ", "  ", ""]) + body[0].strip())
            else:
                out += [decorate(opener, indent, style)[0]] + body
            if s["k"] == "try":
                out += [indent + "finally:", inner + f"t.append({-1 - s['v']})"]
            if s["k"] == "def":
                out += [indent + f"_g{n}()"] * (1 + s["v"])
        i = j
    return out


def one_line(line, s, inner):
    return (s["k"] in ("if", "for", "while", "with") and len(inner) == 1 and inner[0]["k"] in ("expr", "return", "break")
            and "\n" not in line and NL not in line)


def render(p, style, name="f"):
    """The text of a program; NL replaced."""
    rng = style.rng
    base = rng.choice(["", "    ", "\t", "  "]) if "indent" in style.dims else ""
    sig = (ANNOTATED if style.on("annot", .8) else SHAPES)[p["shape"]].format(d=style.expr(p["default"]))
    out = between(base, style) if "decorator" in style.dims else []
    if style.on("decorator", .8):
        out += [base + l if i == 0 else l for i, l in enumerate(rng.choice(DECORATORS).split("\n"))]
        out += between(base, style)
    elif out and "function" in style.dims:
        out = []
    out.append(base + rng.choice(["def ", "def  ", "def\t"] if "format" in style.dims else ["def "])
               + name + (" " if style.on("format", .2) else "") + sig + ":")
    inner = base + style.unit
    out += docstrings(inner, style)
    out += between(inner, style) + [inner + "t.append(d)"]
    out += block(p["body"], 1, inner, style, "def", [0])
    out += between(inner, style)
    return "\n".join(out).replace(NL, "\n") + rng.choice(["\n", "", "\n\n"] if "blank" in style.dims else ["\n"])


def values():
    """What the statements report, found by running each of them alone."""
    out = {}
    for x in (0, 1):
        for v, xs in list(EXPRS.items()) + list(STMTS.items()):
            text = f"t.append({xs[0]})" if v < 100 else xs[0]
            ns = dict(t=[], x=x)
            exec("def f(t, x):\n" + "".join(
                ("    " + l if not continued(text.split("\n"), i) else l) + "\n"
                for i, l in enumerate(text.split("\n"))).replace(NL, "\n") + "f(t, x)", ns)
            out[x, v] = ns["t"]
        for m in (-1, -2):
            out[x, m] = [m]
    return out
