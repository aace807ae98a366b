"""C26: encodings of numbers and signatures."""
import json
import os
import random
import sys

from vf import pool, tla

ALPHABET = "0123456789abcdefghijklmnopqrstuv"


def convert(e):
    """What the code makes of one way to write a number; as the specification says it."""
    from pythagoras._820_strings_signatures_converters import base_16_32_convertors as b
    text = "".join("0123456789abcdef"[d] for d in e["hex"])
    if e["case"] == "upper":
        text = text.upper()
    if e["case"] == "mixed":
        text = "".join(c.upper() if i % 2 else c for i, c in enumerate(text))
    text = "0" * e["zeros"] + text
    n = int(text or "0", 16)
    got = dict(from_hex=b.convert_base16_to_base32(text), from_int=b.convert_int_to_base32(n))
    back = {k: b.convert_base_32_to_int(v) for k, v in got.items()}
    back["upper"] = b.convert_base_32_to_int(got["from_int"].upper())
    back["padded"] = b.convert_base_32_to_int("00" + got["from_int"])
    return n, got, back


def bad(e):
    n, got, back = convert(e)
    want = "".join(ALPHABET[d] for d in e["o"]["digits"])
    for k, v in got.items():
        if v != want and not (n == 0 and v == "0"):
            return f"{k}: {n:#x} ({e}) should be {want!r} in base 32, is {v!r}"
    for k, v in back.items():
        if v != n or type(v) is not int:
            return f"{k}: {n:#x} comes back from base 32 as {v!r}"


VALUES = ["None", "0", "1", "'a'", "b'a'", "[]", "[1, 2]", "(1, 2)", "{'a': 1}", "{1, 2}", "3.5", "'x' * 1000",
          "range(5)", "list(range(1000))"] + [f"'v{i}'" for i in range(200)]


def signatures(_):
    from pythagoras._820_strings_signatures_converters import hash_signatures as h
    out = []
    for x in VALUES:
        v = eval(x)
        out.append((x, h.get_base16_hash_signature(v), h.get_base32_hash_signature(v),
                    h.get_hash_signature(v), h.get_hash_signature(eval(x))))
    return out


def draws(job):
    """Draws in a process and in processes forked from it, with whatever seeds."""
    n, seed, forks = job
    from pythagoras._820_strings_signatures_converters.random_signatures import get_random_signature
    if seed is not None:
        random.seed(seed)
        import numpy as np
        np.random.seed(seed)
    out = [[get_random_signature() for _ in range(n)]]
    for _ in range(forks):
        status, more = pool.isolated(lambda _: [get_random_signature() for _ in range(n)], None, 60)
        assert status == "ok", more
        out.append(more)
    return out + [[get_random_signature() for _ in range(n)]]


def on_machine(m):
    """The signature a new process on a computer comes to."""
    import posix
    import platform
    import uuid
    if m["user"] < 2:
        os.environ["LOGNAME"] = f"user{m['user']}"
    else:                 # an account without a name, as there are in containers
        import pwd

        def unknown(uid):
            raise KeyError(f"getpwuid(): uid not found: {uid}")
        pwd.getpwuid = unknown
        os.getuid = os.geteuid = lambda: 1000 + m["user"]
        for name in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            os.environ.pop(name, None)
    posix_uname = ("Linux", f"host{m['host']}", f"6.1.{m['kernel']}", "#1 SMP", "x86_64")
    os.uname = lambda: posix.uname_result(posix_uname)
    platform._uname_cache = None
    if m["mac"] == 0:
        uuid._node, uuid._GETTERS = None, []
    else:
        uuid._node = 0x0242ac110000 + m["mac"]
    from pythagoras._820_strings_signatures_converters.node_signatures import get_node_signature
    return get_node_signature(), get_node_signature()


class Computers:
    def __init__(self, init):
        self.seen = []

    def step(self, e):
        status, got = pool.isolated(on_machine, e["m"], 60)
        assert status == "ok", got
        for s in got:
            if s not in self.seen:
                self.seen.append(s)
        assert all(len(s) <= 22 and set(s) <= set(ALPHABET) for s in got), got
        return {"is": self.seen.index(got[0]) + 1, "again": self.seen.index(got[e["twice"]]) + 1}


def run(ctx):
    nodes = ctx.tlc("Nodes", constants=dict(Macs={0, 1, 2}, Hosts={1, 2}, Users={1, 2, 3}, Kernels={1, 2}, MaxSteps=10),
                    view="View", action_constraint="Emit", invariants=["Distinct"],
                    simulate=ctx.pick(30, 300), depth=11)
    ctx.replay(tla.split_simulation(nodes.lines), Computers, label="computers")
    events = []
    on = dict(view="View", action_constraint="Emit", on_line=lambda x: events.append(x["e"]),
              invariants=["BitsAgree", "NoLeadingZero", "Exact"])
    digits = ctx.pick({0, 1, 7, 8, 15}, set(range(16)))
    ctx.tlc("Base32", constants=dict(Digits=digits, Given=set(), MaxLen=4,
                                     Cases={"lower", "upper"}), **on)
    small = len(events)
    ctx.tlc("Base32", constants=dict(Digits=set(range(16)), Given=set(), MaxLen=70,
                                     Cases={"lower", "upper", "mixed"}),
            simulate=ctx.pick(12, 300), depth=72, **(on | dict(invariants=["BitsAgree"])))
    seen = set()
    failures = 0
    for e in events:
        k = tla.canon(e)
        if k in seen:
            continue
        seen.add(k)
        try:
            msg = bad(e)
        except Exception as x:
            msg = f"{e}: {type(x).__name__}: {x}"
        if msg:
            failures += 1
            ctx.violation(msg, e)
            if failures > 3:
                break
    ctx.count("traces_validated_against_impl", len(seen))
    ctx.count("impl_steps", 6 * len(seen))
    for e in events[small:small + 2]:
        ctx.sample(e)
    # signatures of values: the base 32 text of their hexadecimal signature, cut
    runs = [pool.run_all(signatures, [0], timeout=120)[0] for _ in range(2)]
    for st, r in runs:
        if st != "ok":
            ctx.violation("computing signatures failed: " + str(r)[-300:], r)
            return
    a, b = runs[0][1], runs[1][1]
    if a != b:
        ctx.violation("the same values have other signatures in another process",
                      [p for p in zip(a, b) if p[0] != p[1]][:5])
    given, expect = {}, []
    try:
        given = {tuple(int(c, 16) for c in x[1]): x for x in a}
    except ValueError:
        ctx.violation("a base 16 signature is not hexadecimal", a[:3])
    ctx.tlc("Base32", constants=dict(Digits=set(), Given="@", MaxLen=0, Cases={"lower"}),
            extra_defs="const_Given == " + tla._tla(set(given)), init="InitGiven", next="NextGiven",
            view="View", action_constraint="Emit", on_line=lambda x: expect.append(x["e"]),
            invariants=["BitsAgree", "Exact"])
    for e in expect:
        x = given[tuple(e["hex"])]
        full = "".join(ALPHABET[d] for d in e["o"]["digits"])
        if x[2] != full or x[3] != full[:22] or x[4] != x[3]:
            ctx.violation(f"the signature of {x[0]} should be {full} ({full[:22]}), is {x[2:]}", x)
            break
    if len({x[3] for x in a}) != len(VALUES):
        ctx.violation("different values have the same signature", a)
    ctx.count("traces_validated_against_impl", len(expect))
    # random signatures
    jobs = [(ctx.pick(300, 3000), s, 3) for s in (None, 1, 1, 0, 0, None, 12345, 12345)]
    res = pool.run_all(draws, jobs, timeout=200)
    trace = []
    for st, r in res:
        if st != "ok":
            ctx.violation("drawing signatures failed: " + str(r)[-300:], r)
            return
        trace += r
    out = ctx.tlc("Draws", files={"trace.json": json.dumps(
        [[[ALPHABET.index(c) if c in ALPHABET else 99 for c in s] for s in r] for r in trace])},
        timeout=800)
    ctx.count("draws", sum(map(len, trace)))
    ctx.count("traces_validated_against_impl", len(trace))
    if out.distinct != len(trace) + 1:
        seen = set()
        for s in sum(trace[:out.distinct], []):
            if s in seen:
                ctx.violation(f"the random signature {s!r} was drawn twice", trace)
                return
            seen.add(s)
        ctx.violation("what was drawn is not a signature", trace[out.distinct - 1])
