"""C22: from an address, a session that knows nothing gets the function and runs it."""
import ast
import pickle

from vf import pool, probe
from vf.simdict import SimDict
from .c14 import behaviours, replay
from .identity_driver import Identity
from .world import World


def travelled(b):
    """Definitions and calls in one process ..."""
    d = Identity(b["init"])
    for e in b["events"]:
        d.step(e)
    return dict(n=b["init"]["n"], blobs=dict(d.backend.blobs), isle=d.isle, args=d.args, params=(d.px, d.pd),
                meant=[dict(m, a=d.pickled[m["j"] - 1], text=d.known[m["j"] - 1]) for m in d.meant])


class Elsewhere(World):
    """... and one of the calls in another, which was never told of any of them."""

    def __init__(self, job):
        super().__init__(job["n"])
        self.job, m = job, job["m"]
        blobs = dict(job["blobs"])
        if job["again"]:
            blobs = {k: v for k, v in blobs.items() if "/execution_results/" not in k}
        self.backend.blobs = blobs
        self.here = Identity.__new__(Identity)
        self.here.args = job["args"]
        self.here.px, self.here.pd = job["params"]
        self.ran = 0
        probe.install(body=self.body, guard=lambda *a: None)
        if self.rng.random() < .5:
            self.portal("z")
        self.portal(m["t"], p_consistency_checks=self.rng.choice([0, None]))
        if self.rng.random() < .5:
            self.portal("y")

    def body(self, f, v, x, d):
        self.ran += 1
        return self.here.index(x)

    def run(self):
        m = self.job["m"]
        with self.portals[m["t"]] as portal:
            a = pickle.loads(m["a"])
            if self.rng.random() < .5:
                a = self.p.PureFnExecutionResultAddr.from_strings(
                    prefix=m["text"][0], hash_signature=m["text"][1], assert_readiness=False)
            if (a.fn_name, a.island_name) != (m["f"], self.job["isle"][m["i"]]):
                return f"{m['f']} in {m['i']} became {a.fn_name} in {a.island_name}"
            kw = a.kwargs
            X, D = self.here.px, self.here.pd
            if set(kw) != {X, D} or kw[D] != m["d"] or self.here.index(kw[X]) != m["x"]:
                return f"the arguments became {dict(kw)}"
            if self.job["again"] and not a.can_be_executed:
                return "it can not be executed"
            if not self.job["again"] and self.rng.random() < .5 and a.ready:
                got = a.get()
                if self.ran:
                    return "getting the result runs the function"
            else:
                got = a.execute()
            if self.here.plain(got) != m["val"] or self.here.args_in(got) != {m["x"]}:
                return f"the result is {got} instead of {m['val']}"
            if self.job["again"] and not self.ran:
                return "nothing runs"
            b = a.function.get_address(**kw)
            if tuple(b) != tuple(m["text"]) or b != a:
                return "the function restored has another address"
            if not a.ready:
                return "the result is not there afterwards"
            # and on to the next: a function as a value
            f = pickle.loads(pickle.dumps(a.function))
            if f(**kw) != got or tuple(f.get_address(**kw)) != tuple(m["text"]):
                return "the function itself, passed on, is another one"
        if self.stack():
            return "portals are left entered"
        return None


def elsewhere(jobs):
    return [Elsewhere(j).run() for j in jobs]


def new_processes(ctx, bs, n):
    jobs = []
    for b, (st, res) in zip(bs, pool.run_all(travelled, bs, timeout=100)):
        if st != "ok":
            ctx.violation("defining and calling: " + pool.last_line(res), dict(behaviour=b, result=res))
            continue
        for m in res["meant"]:
            jobs.append(dict(res, m=m, meant=None, n=res["n"] * 100 + m["j"], again=m["j"] % 3 > 0))
    jobs = ctx.some(jobs, n)
    for j, (st, res) in zip(jobs, pool.run_all(elsewhere, [[j] for j in jobs], timeout=100)):
        ctx.count("traces_validated_against_impl")
        ctx.count("impl_steps", 8)
        msg = pool.last_line(res) if st != "ok" else res[0]
        if msg:
            ctx.violation(f"in a new process: {msg}", dict(m={k: v for k, v in j["m"].items() if k != "a"}, result=res))


# --- the forms arguments of decorators and calls take on the way
LEAVES = ["text", "", "it's \"quoted\"\n", "Ünïcode", "None", "\\", "['a']"]
OTHER = [0, 1, -5, 2.5, True, None, ["a", "b"], [], ("x",), {"k": ["v"]}, b"bytes"]


def forms(ctx):
    """Decorators' arguments, from text to text."""
    from pythagoras._070_pure_functions.astkeywords_dict_convertors import (
        convert_astkeywords_to_dict, convert_dict_to_astkeywords)
    r = ctx.rng
    for n in range(300):
        d = {f"k{i}": r.choice(LEAVES) for i in range(r.randint(0, 4))}
        back = convert_astkeywords_to_dict(convert_dict_to_astkeywords(d))
        if back != d or list(back) != list(d):
            ctx.violation(f"{d} became {back}", dict(d=d, back=back))
            return
        d.update({f"o{i}": r.choice(OTHER) for i in range(r.randint(0, 4))})
        text = "f(" + ", ".join(f"{k}={v!r}" for k, v in d.items()) + ")"
        back = convert_astkeywords_to_dict(ast.parse(text).body[0].value.keywords)
        if back != d or [type(x) for x in back.values()] != [type(x) for x in d.values()]:
            ctx.violation(f"{text} became {back}", dict(text=text, back=back))
            return
        ctx.count("impl_steps", 2)


def packing(seed):
    """Arguments, packed and unpacked, by a portal and by another one over the storage."""
    import pythagoras as p
    from pythagoras._070_pure_functions.kw_args import SortedKwArgs
    w = World(seed)
    r = w.rng
    portals = [w.portal("p", "d"), w.portal("q", "d")]
    values = [1, None, "x", [1, None], {"a": (1, 2)}, b"", 2.5, True, (), {1, 2}, [[]]]
    for n in range(25):
        names = r.sample(["a", "b", "x", "y", "self_", "zz", "kargs", "Ä", "_", "portal_", "k1", "k10", "k2", "K"],
                         r.randint(0, 6))
        kw = {k: r.choice(values) for k in names}
        s = SortedKwArgs(**kw)
        if dict(s) != kw or list(s) != sorted(kw):
            return f"{kw} became {list(s.items())}"
        given = {}
        with portals[0]:
            for k in kw:
                given[k] = p.ValueAddr(kw[k]) if r.random() < .3 else kw[k]
        a = SortedKwArgs(**given).pack(portals[0])
        b = SortedKwArgs(**dict(reversed(kw.items()))).pack(portals[r.randint(0, 1)])
        if list(a) != sorted(kw) or not all(isinstance(v, p.ValueAddr) for v in a.values()):
            return f"{kw} is packed as {list(a.items())}"
        if {k: tuple(v) for k, v in a.items()} != {k: tuple(v) for k, v in b.items()} or list(a) != list(b):
            return f"{kw} is packed in two ways"
        c = a.pack(portals[0])
        if {k: tuple(v) for k, v in a.items()} != {k: tuple(v) for k, v in c.items()}:
            return f"{kw} is packed again to something else"
        with portals[0]:
            x, y = pickle.dumps(a), pickle.dumps(b)
            if p.ValueAddr(a).hash_signature != p.ValueAddr(b).hash_signature:
                return f"{kw} is packed with two addresses"
        with portals[1]:
            back = pickle.loads(x).unpack()
            if back != kw or list(back) != sorted(kw) or any(type(back[k]) is not type(kw[k]) for k in kw):
                return f"{kw} is unpacked as {back}"
            again = SortedKwArgs(**kw).unpack()
            if again != kw:
                return f"values {kw} are unpacked as {again}"
        if w.stack():
            return "portals are left entered"
    return None


def bad_text(n):
    """Text that no function can be restored from is refused."""
    from pythagoras._070_pure_functions.process_augmented_func_src import process_augmented_func_src
    w = World(n)
    ok = "@pth.autonomous(island_name='i')\ndef f(x):\n    return x\n"
    bad = ["x = 1\n" + ok, ok + "f(1)\n", "def f(x):\n    return x\n", "import os\n" + ok, "class A:\n    pass\n",
           "@pth.autonomous(island_name='i')\n@pth.autonomous(island_name='i')\ndef f(x):\n    return x\n",
           "@pth.foreign(island_name='i')\ndef f(x):\n    return x\n", "def f(:\n",
           "@pth.autonomous(island_name='i', portal='p')\ndef f(x):\n    return x\n",
           "@pth.autonomous(island_name=name)\ndef f(x):\n    return x\n",
           "@pth.autonomous('i')\n@pth.pure()\ndef f(x):\n    return x\n"]
    for k, text in enumerate([ok, ""] + bad):
        w.forget()
        portal = w.portal("p")
        if w.rng.random() < .5:
            args = dict(portal=portal)
        else:
            args = {}
        try:
            process_augmented_func_src(text, **args)
        except Exception:
            if k < 2:
                return f"text is refused: {text!r}"
            continue
        if k >= 2:
            return f"text is accepted: {text!r}"
        if k == 0 and portal.known_functions.get("i", {})["f"](x=5) != 5:
            return "the function restored is another one"
    return None


def run(ctx):
    one = dict(Islands={"i1"}, Portals={"p"}, Args={1, 2})
    ctx.tlc("CallIdentity", constants=dict(Order=["aa", "bb"], GOrder=["kk"], Islands={"i1"}, Portals={"p"}, Args={1},
                                           MaxD=1, MaxSteps=ctx.pick(4, 5), PureOnly=True, Many=1), init="InitA",
            next="Next", view="View", invariants=["OnePerCall", "Same"], properties=["Stable"])
    groups = behaviours(ctx, [(one, ctx.pick(110, 3000)),
                              (dict(one, Order=["aa", "bb", "cc", "dd"], MaxSteps=60, Many=90), ctx.pick(60, 2000)),
                              (dict(one, PureOnly=True, Order=["aa", "bb"], MaxSteps=60), ctx.pick(60, 2000))])
    replay(ctx, groups)
    if ctx.violations:
        return
    new_processes(ctx, [b for _, bs in groups for b in bs][::ctx.pick(4, 2)], ctx.pick(150, 5000))
    forms(ctx)
    for st, msg in pool.run_all(packing, range(ctx.seed * 1000, ctx.seed * 1000 + ctx.pick(16, 400)), timeout=100) \
            + pool.run_all(bad_text, [ctx.seed], timeout=100):
        ctx.count("impl_steps", 25)
        if st != "ok" or msg:
            ctx.violation(f"on the way: {pool.last_line(msg)}", dict(result=msg))
