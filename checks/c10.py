"""C10: a function is accepted as autonomous exactly if it needs nothing outside."""
import ast
import importlib.util
import os
import random
import symtable
import tokenize

from vf import env, pool, probe, simdict, tla
from . import scopes_render as sr

ALWAYS, ISLAND, OUTER = {"len", "pth"}, {"h"}, {"c"}
SUPPORT = {"x": 1, "h": 2, "c": 3}       # what the module around f happens to define


class Generators(ast.NodeTransformer):
    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.GeneratorExp(elt=node.elt, generators=node.generators)

    visit_SetComp = visit_ListComp

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                generators=node.generators)


def cpython(text, closure, names):
    """(global names, names of an outer function) that CPython's compiler finds."""
    if closure:
        text = "def p():\n    c = 1\n    global f\n" + _indent(text) + "    return f\n"
    # as generator expressions: others are inlined, which blurs what the compiler reports
    text = ast.unparse(ast.fix_missing_locations(Generators().visit(ast.parse(text))))
    top = symtable.symtable(text, "<program>", "exec")
    f = top.get_children()[0]
    if closure:
        f = f.get_children()[0]
    out = set(), set()

    def walk(t):
        for s in t.get_symbols():
            if s.get_name() in names and (s.is_referenced() or s.is_assigned() or s.is_imported()):
                if s.is_global():
                    out[0].add(s.get_name())
        for c in t.get_children():
            walk(c)
    walk(f)
    if closure:
        out[1].update(set(f.get_frees()) & names)
    return out


def _indent(text):
    return "".join("    " + l + "\n" for l in text.splitlines())


# names that stand for those of the specification; what the package itself defines or imports is among them
OTHER_NAMES = ["sys", "Any", "Callable", "DataPortal", "OrdinaryFn", "SafeFn", "__file__", "__x__", "get_hash_signature",
               "PersiDict", "portal", "item", "p", "X", "Größe", "result", "island", "annotations", "BasicPortal"]


def renamed(text, names):
    """The program with other names."""
    lines = text.splitlines(True)
    found = [t for t in tokenize.generate_tokens(iter(lines).__next__) if t.type == tokenize.NAME and t.string in names]
    for t in reversed(found):
        (row, a), (_, b) = t.start, t.end
        lines[row - 1] = lines[row - 1][:a] + names[t.string] + lines[row - 1][b:]
    return "".join(lines)


def module_text(programs, names):
    out = ["P = {}"] + [f"{names.get(n, n)} = {v}" for n, v in SUPPORT.items()]
    for p in programs:
        if p["closure"]:
            out.append(f"def p{p['i']}():\n    c = 1\n    global f\n{_indent(p['text'])}    return f\nP[{p['i']}] = p{p['i']}()")
        else:
            out.append(f"{p['text']}\nP[{p['i']}] = f")
    return "\n".join(out) + "\n"


def outcome(deco, what, ran):
    """What happens to f, decorated and then called twice."""
    try:
        w = deco(what)
    except Exception as e:
        return "decoration", repr(e)[:300]
    answers, why = [], ""
    for _ in range(2):
        n = len(ran)
        try:
            r = w()
        except Exception as e:
            why = repr(e)[:300]
            answers.append("use" if len(ran) == n else "failed after it started")
        else:
            answers.append("accepted" if r == 0 else f"returned {r!r}")
    if len(set(answers)) > 1:
        return " then ".join(answers), why
    if answers[0] == "accepted" and not ran:
        return "accepted, but it never ran", why
    return answers[0], why


def judge(programs):
    """[(i, way, what happened, what should have)] for those judged otherwise."""
    import pythagoras as p
    from pythagoras import autonomous, strictly_autonomous, pure
    simdict.SimDict.reset()
    ran = []
    probe.install(ran=lambda: ran.append(1) or True)
    d = os.path.join(os.environ["TMPDIR"], f"c10_{os.getpid()}_{programs[0]['i']}")
    os.makedirs(d, exist_ok=True)
    path = f"{d}/programs.py"
    rng = random.Random(programs[0]["i"])
    names = dict(zip(["x", "h", "o", "y"], rng.sample(OTHER_NAMES, 4))) if rng.random() < .7 else {}
    name = lambda n: names.get(n, n)
    programs = [dict(q, text=renamed(q["text"], names)) for q in programs]
    with open(path, "w") as fh:
        fh.write(module_text(programs, names))
    spec = importlib.util.spec_from_file_location("c10_programs", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    bad, n = [], 0
    portal = p.PureCodePortal(root_dict=simdict.SimDict("portal"))
    with portal:
        autonomous(island_name="elsewhere")(f"def {name('o')}():\n    return 0\n")
        for q in programs:
            fn, o = mod.P[q["i"]], q["o"]
            loose = lambda isl: autonomous(island_name=isl)
            strict = lambda isl: strictly_autonomous(island_name=isl)
            pure_ = lambda isl: pure(island_name=isl)
            needs = sorted(o["provided"])
            ways = [("exactly", pure_ if q["i"] % 8 == 4 else loose, fn, needs, o["exact"])]
            if not q["closure"]:
                ways.append(("exactly, as text", pure_ if q["i"] % 8 == 2 else loose, q["text"], needs, o["exact"]))
            k = q["i"] % (len(needs) + 1)
            if k < len(needs):
                ways.append((f"without {needs[k]}", pure_ if q["i"] % 8 == 7 else loose, fn,
                             needs[:k] + needs[k + 1:], o["lacking"][0]))
            ways.append([("strict", strict, fn, ["h"], o["strict"]), ("loose", loose, fn, ["h"], o["loose"]),
                         ("text", loose, q["text"], ["h"], o["text"]), ("pure", pure_, fn, ["h"], o["loose"])][q["i"] % 4])
            for nway, (way, deco, what, island, want) in enumerate(ways):
                isl = f"i{q['i']}w{nway}"
                for k, n_ in enumerate(island):
                    (autonomous, pure)[(q["i"] + k) % 2](island_name=isl)(f"def {name(n_)}():\n    return 0\n")
                ran.clear()
                got, why = outcome(deco(isl), what, ran)
                n += 1
                if got != want:
                    bad.append((q["i"], way, got, want, why))
    os.remove(path)
    return n, bad


def run(ctx):
    names = {"x", "y", "h", "f", "len", "pth", "o", "c"}
    tokens = {"use", "bind", "mention", "walrus", "global", "nonlocal", "yield"}
    base = dict(Tokens=tokens, DefNames=names | {"k"}, Names=names, Always=ALWAYS, Island=ISLAND, Outer=OUTER,
                Kinds={"def", "async", "class", "lambda", "comp"})
    rules = ["ExactlyProvided", "NeededIsNotBound", "StrictIsStricter", "UnusedIsAccepted", "BoundInFIsAccepted"]

    def explore(constants, **kw):
        events = []
        ctx.tlc("NameScopes", constants=dict(base, **constants), action_constraint="Emit",
                on_line=lambda x: events.append(x["e"]), **kw)
        return events
    jobs = [  # every program with one name and few tokens; every pair; and long ones, at random
        lambda: explore(dict(Names={"x"}, DefNames={"k"}, Outer=set(), MaxToks=ctx.pick(5, 6), MaxScopes=3, Params=1,
                             Kinds={"def", "class", "lambda", "comp"}, Tokens=tokens - ctx.pick({"mention", "yield", "walrus"}, {"yield"})),
                        invariants=rules, heap="6g", timeout=3000),
        lambda: explore(dict(Names={"x"}, DefNames={"x"}, Outer=set(), MaxToks=4, MaxScopes=3, Params=1), invariants=rules),
        lambda: explore(dict(MaxToks=2, MaxScopes=2, Params=0), invariants=rules),
        # several declarations in one scope, of f or in it
        lambda: explore(dict(Names={"x", "c"}, DefNames={"k"}, MaxToks=4, MaxScopes=1, Params=0,
                             Kinds={"def"}, Tokens={"use", "bind", "global", "nonlocal"}), invariants=rules),
        lambda: explore(dict(Names={"x", "y", "c"}, DefNames={"k"}, MaxToks=6, MaxScopes=2, Params=0,
                             Kinds={"def"}, Tokens={"use", "bind", "global", "nonlocal"}),
                        simulate=ctx.pick(2000, 20000), depth=9, seed=ctx.seed)]
    for k, (toks, scopes, num) in enumerate((
            (7, 4, ctx.pick(450, 10000)), (7, 4, ctx.pick(450, 10000)), (14, 6, ctx.pick(350, 10000)),
            (14, 6, ctx.pick(350, 10000)), (30, 9, ctx.pick(200, 10000)))):
        jobs.append(lambda toks=toks, scopes=scopes, num=num, k=k: explore(
            dict(MaxToks=toks, MaxScopes=scopes, Params=2), simulate=num, depth=4 * toks, seed=10 * ctx.seed + k))
    small, small2, pairs, decl, decl2, *rest = ctx.parallel(jobs)
    decl = ctx.some([e for e in decl + decl2
                     if sum(t["t"] in ("global", "nonlocal") for t in e["toks"]) > 1], ctx.pick(500, 10 ** 5))
    small, rest = small + small2, sum(rest, [])
    ctx.cov["programs_specified"] = len(small) + len(pairs) + len(rest)
    small, s1 = sr.cover(ctx.rng, small, ctx.pick(1500, 10 ** 6))
    pairs, s2 = sr.cover(ctx.rng, pairs, ctx.pick(400, 10 ** 6))
    rest, s3 = sr.cover(ctx.rng, rest, ctx.pick(1000, 10 ** 6))
    ctx.cov["ways_names_are_found"] = [s1, s2, s3]
    render = sr.Renderer(ctx.seed)
    programs, seen, verdicts = [], set(), {}
    for e in small + pairs + rest + decl:
        render.no_annotations = OUTER if e["closure"] else set()
        marked = render.program(e["toks"])
        text, bare = sr.with_annotations(marked), sr.without_annotations(marked)
        if (text, e["closure"]) in seen:
            continue
        seen.add((text, e["closure"]))
        try:
            # the specification must agree with Python itself
            needed, outer = cpython(bare, e["closure"], names)
        except SyntaxError as x:
            raise AssertionError(f"the specification wrote what is not Python: {x}\n{text}")
        if needed != set(e["o"]["needed"]) or outer != set(e["o"]["outer"]):
            raise AssertionError(f"the specification disagrees with Python: {e['o']}, {needed}, {outer}\n{text}")
        programs.append(dict(i=len(programs), text=text, closure=e["closure"], o=e["o"]))
        for k in ("strict", "loose", "text", "exact"):
            v = f"{k}:{e['o'][k]}"
            verdicts[v] = verdicts.get(v, 0) + 1
    ctx.cov["verdicts"] = verdicts
    ctx.cov["forms"] = {}
    for k, v in sorted(render.used.items()):
        k = f"{k[0]} in {k[1]}" + (" alone" if k[2] else "")
        ctx.cov["forms"][k] = len(v)
    ctx.count("programs_checked_against_cpython", len(programs))
    for p in programs[-3:]:
        ctx.sample(p)
    step = 60
    chunks = [programs[i:i + step] for i in range(0, len(programs), step)]
    reported = 0
    for (chunk, r) in zip(chunks, pool.run_all(judge, chunks, timeout=400)):
        if r is None:
            continue
        if r[0] != "ok":
            ctx.violation("functions could not be judged: " + str(r[1])[-500:], r)
            continue
        n, bad = r[1]
        ctx.count("traces_validated_against_impl", n)
        ctx.count("impl_steps", 3 * n)
        for i, way, got, want, why in bad:
            reported += 1
            if reported <= 6:
                ctx.violation(f"{way}: {got!r} instead of {want!r} ({why}):\n{programs[i]['text']}",
                              dict(program=programs[i], way=way, got=got, want=want, why=why))
