"""Records what executions do to their stores, in terms of CallStore.tla, and asks TLC
whether it is a behaviour of that specification."""
import json

from vf.simdict import SimDict

SRC = """def {name}(x):
    import vprobe
    return vprobe.body("{name}", x, {inner})
"""
VALUES = {1: ["a result", 1], 2: ["a result", 2]}
ARG = {"an": ["argument"]}


def source(name, nested=False):
    return SRC.format(name=name, inner="g" if nested and name == "f" else "None")


class Places:
    """Where things of each slot (call, disk) are stored: found by looking at what the
    public operations read."""

    def __init__(self, p, disks, names, nested, define=None):
        self.result, self.request, self.value, self.attempts, self.text = {}, {}, {}, {}, {}
        backend = SimDict.reset()
        self.signature = {}
        for d in disks:
            portal = p.PureCodePortal(SimDict(d))
            fns = define(portal) if define else {
                n: p.pure(portal=portal)(source(n, nested)) for n in names}
            for n in names:
                s = f"{n}-{d}"
                a = fns[n].get_address(x=ARG)
                self.text[n] = tuple(a)
                with portal:
                    self.result[self.probe(backend, lambda: a in portal.execution_results)] = s
                    self.request[self.probe(backend, lambda: a in portal.execution_requests)] = s
                    self.attempts[self.probe(backend, lambda: len(a.execution_attempts), "list")] = s
            with portal:
                for i, v in VALUES.items():
                    va = p.ValueAddr(v)
                    self.signature[va.hash_signature.encode()] = i
                    self.value[self.probe(backend, lambda: va in portal.value_store)] = (d, i)
        SimDict.reset()

    def probe(self, backend, f, op="has"):
        seen = []
        backend.after = lambda o, path, r=None: seen.append((o, path))
        f()
        backend.after = None
        seen = {path for o, path in seen if o == op}
        assert len(seen) == 1, seen
        return seen.pop()

    def slots(self):
        return sorted(self.result.values())

    def attempt(self, path):
        return next((s for p, s in self.attempts.items() if path.startswith(p)), None)

    def interesting(self, path):
        return (path in self.result or path in self.request or path in self.value
                or self.attempt(path) is not None)

    def events(self, p, op, path, blob=None):
        """What a completed write or removal at a path means."""
        s = self.attempt(path)
        if path in self.result:
            v = [i for sig, i in self.signature.items() if blob and sig in blob]
            return [dict(a="Publish" if op == "write" else "Unpublish", p=p, s=self.result[path],
                         v=v[0] if len(v) == 1 else 9)]
        if path in self.request:
            return [dict(a="AddReq" if op == "write" else "DropReq", p=p, s=self.request[path])]
        if path in self.value:
            d, v = self.value[path]
            return [dict(a="Store" if op == "write" else "Unstore", p=p, s=s, v=v)
                    for s in self.slots() if s.endswith("-" + d)]
        if s is not None:
            return [dict(a="Attempt" if op == "write" else "Unattempt", p=p, s=s)]
        return []


class Contexts:
    """Numbers for what is entered, where output goes, and what runs."""

    def __init__(self):
        self.seen = []

    def now(self, fns=()):
        import logging
        import sys
        from pythagoras._010_basic_portals.foundation import BasicPortal
        c = (list(BasicPortal.entered_portals_stack), list(BasicPortal.entered_portals_counters_stack),
             sys.stdout, sys.stderr, [(h, getattr(h, "stream", None)) for h in logging.root.handlers],
             [list(f.call_stack) for f in fns])
        for i, x in enumerate(self.seen):
            if x == c:
                return i
        self.seen.append(c)
        return len(self.seen) - 1


def version(r):
    return next((i for i, v in VALUES.items() if v == r), 9)


def validate(ctx, runs, slots, procs, label):
    """runs: [(what led to it, trace)]"""
    far = {}

    def seen(x):
        far[x["t"]] = max(far.get(x["t"], 0), x["i"])
    ctx.tlc("CallStoreTrace", constants=dict(
        Procs=procs, Slots=set(slots), Vals={1, 2}, CallOf={s: s for s in ()} or "@"),
        extra_defs="const_CallOf == " + " @@ ".join(f'("{s}" :> "{s.split("-")[0]}")' for s in slots),
        init="TInit", next="TNext", action_constraint="Progress", on_line=seen,
        files={"traces.json": json.dumps([t for _, t in runs])},
        invariants=["Complete", "Recoverable"], properties=["Unchanging"])
    for n, (how, t) in enumerate(runs):
        got = far.get(n + 1, 1)
        ctx.count("traces_validated_against_impl")
        ctx.count("impl_steps", len(t))
        if got <= len(t):
            ctx.violation(f"{label}: after {t[:got - 1]} the code does {t[got - 1]}",
                          dict(how=how, trace=t, step=got), key=None)
