"""C05: the address of a value is a one-to-one function of its type and content."""
import json
import os
import random
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from vf import env, tla
from . import c05_worker as w


def leaf_table():
    import numpy as np
    ns = w.namespace()
    out = {}
    for n, xs in w.LEAVES.items():
        v = eval(xs[0], dict(ns))
        shape = getattr(v, "shape", None)
        if shape is not None and not isinstance(v, type):
            size = "shape_" + "_x_".join(map(str, shape)) + "_" if len(shape) else "shap_"
            size = "shape_" + "_x_".join(map(str, shape)) + "_"
        elif hasattr(v, "__len__") and not isinstance(v, type):
            size = f"len_{len(v)}_"
        else:
            size = ""
        if isinstance(v, np.generic):
            size = "?"      # what the descriptor of a zero-dimensional value says is left open
        out[n] = dict(prefix=re.sub(r"[^a-z0-9_]", "_", type(v).__name__.lower())[:100], size=size, hashable=n not in w.UNHASHABLE,
                      eq=w.EQUAL.get(n, n))
    out["arr0"] = dict(prefix="ndarray", size="shape_0_", hashable=False, eq="arr0")
    return out


def addresses(items, seed, portal):
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=env.VERIF)
    r = subprocess.run([sys.executable, "-W", "ignore", env.VERIF + "/checks/c05_worker.py"],
                       input=json.dumps(dict(items=items, portal=portal)), env=e, text=True,
                       capture_output=True, timeout=1500)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout)


def run(ctx):
    leaves = leaf_table()
    names = list(w.LEAVES)
    tla_leaves = "[n \\in " + tla._tla(set(names)) + " |-> CASE " + " [] ".join(
        f"n = {tla._tla(n)} -> {tla._tla(d)}" for n, d in leaves.items()) + "]"
    inner = ctx.pick(["None", "True", "1", "1.0", "'a'", "'1'", "b'a'", "0"],
                     ["None", "True", "False", "1", "1.0", "'a'", "'1'", "b'a'", "0", "''", "arr3",
                      "np1.5", "1j"])
    keys = ["'a'", "'b'", "1", "True", "None", "'ab'"]
    hows = {"plain", "reversed", "pickled", "copied"}
    events = []
    consts = dict(Inner=set(inner), Keys=set(keys), Hows=hows, MaxStack=6, MaxItems=3, MaxWeight=14)
    kw = dict(extra_defs="const_Leaves == " + tla_leaves, action_constraint="Emit", view="View",
              on_line=lambda x: events.append(x["e"]))
    tlc(ctx, consts, init="InitSmall", next="NextSmall", **kw)
    small = len(events)
    deep_inner = ctx.rng.sample(sorted(set(names) - {"nan"}), ctx.pick(16, 30))
    consts = dict(consts, Inner=set(deep_inner) | {"None"}, Keys=set(keys) | {"0.5", "uml", "range(3)", "date"})
    tlc(ctx, consts, init="InitDeep", next="NextDeep", simulate=ctx.pick(60, 1500), depth=40, **kw)
    ctx.count("values_small", small)
    cases, seen = [], set()
    for e in events:
        k = (tla.canon(e["t"]), e["how"])
        if k not in seen:
            seen.add(k)
            cases.append((e["t"], e["how"], e["o"], k[0]))
    deep = cases[small:]
    ctx.rng.shuffle(deep)
    cases = cases[:small] + deep[:ctx.pick(6000, 200000)]
    # cases of known findings: the same value, its parts shared or laid out differently
    extra = []
    for t in ({"list": [{"list": [{"leaf": "1"}]}, {"list": [{"leaf": "1"}]}]},
              {"tuple": [{"dict": []}, {"dict": []}]}):
        extra.append((t, "plain", None, tla.canon(t), None))
        extra.append((t, "alias", None, tla.canon(t), "aliasing"))
    for n, xs in w.LAYOUT.items():
        for i, (key, _) in enumerate(xs):
            extra.append(({"leaf": n}, f"layout{i}", None, tla.canon({"leaf": n}), key))
    everything = [c + (None,) for c in cases] + extra
    check(ctx, everything)


def tlc(ctx, consts, **kw):
    consts = dict(consts)
    res = ctx.tlc("ValueTerms", constants=consts | dict(Leaves="@"), **kw)
    return res


def check(ctx, cases):
    jobs, n = [], max(1, -(-len(cases) // 4))
    chunks = [range(i, min(i + n, len(cases))) for i in range(0, len(cases), n)]
    # every case in one process, and a part of them in other processes, in another order
    seeds = [ctx.seed * 7 + 1, ctx.seed * 7 + 2, 0]
    for k, ch in enumerate(chunks):
        jobs.append((list(ch), seeds[k % 2], k % 3))
    again = list(range(len(cases)))
    random.Random(ctx.seed).shuffle(again)
    again = again[:ctx.pick(5000, 100000)]
    n = max(1, -(-len(again) // 4))
    for k in range(0, len(again), n):
        jobs.append((again[k:k + n], [12345, 0, 77, ctx.seed + 1000][k // n % 4], (k // n + 1) % 3))
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: addresses([cases[i][:2] for i in j[0]], j[1], j[2]), jobs))
    by_term, by_addr, n_eval = {}, {}, 0
    for (ids, seed, portal), res in zip(jobs, results):
        for i, a in zip(ids, res):
            t, how, o, c, key = cases[i]
            n_eval += 1
            if isinstance(a, str):
                ctx.violation(f"a value has no address: {c} built {how}: {a}", dict(term=t, how=how), key=key)
                continue
            a = tuple(a)
            where = dict(term=t, how=how, seed=seed, portal=portal, address=a)
            first = by_term.setdefault(c, (a, where))
            if first[0] != a:
                ctx.violation(f"equal values have different addresses: {c}, built {first[1]['how']} "
                              f"and {how}: {first[0]} and {a}", [first[1], where], key=key)
                continue
            if key:
                continue
            other = by_addr.setdefault(a, (c, where))
            if other[0] != c:
                ctx.violation(f"different values share the address {a}: {other[0]} and {c}",
                              [other[1], where])
            if o is not None:
                bad = a[0] != o["prefix"]
                if o["descriptor"] != "?":
                    m = re.fullmatch(re.escape(o["descriptor"]) + "[0-9a-v]{1,22}", a[1])
                    bad = bad or not m
                if bad:
                    ctx.violation(f"the address {a} does not describe {c}: {o}", where)
    ctx.count("traces_validated_against_impl", n_eval)
    ctx.count("impl_steps", n_eval)
    ctx.count("distinct_values", len(by_term))
    ctx.count("pairs_compared", len(by_term) * (len(by_term) - 1) // 2)
    for c in cases[:3]:
        ctx.sample(dict(term=c[0], how=c[1]))
