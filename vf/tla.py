"""Running TLC, and reading the behaviours it emits.

A specification that is replayed into the code emits, for every transition it
takes, one line  PrintT(ToJson([k |-> "T", s |-> .., e |-> .., t |-> ..]))  from
an ACTION_CONSTRAINT, and  [k |-> "I", t |-> ..]  from Init. `e` is the action with
its arguments and, under `o`, what the specification says is observed after it.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import env

SPECS = env.VERIF + "/specs"


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []        # decoded JSON values printed
        self.violated = None
        self.output = ""
        self.wall = 0.0
        self.coverage = {}


_STR = re.compile(r'^"(.*)"$')


def _tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(_tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {_tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def run(module, constants=None, init="Init", next="Next", spec=None, invariants=(),
        properties=(), constraint=None, action_constraint=None, view=None,
        postcondition=None, simulate=None, depth=None, seed=None, workers=1,
        timeout=600, deadlock=False, files=None, symmetry=None, heap="2g",
        expect_ok=True, extra_defs="", on_line=None, keep_output=True):
    """Run TLC on specs/<module>.tla. Returns a TLCResult; raises TLCError when
    TLC itself fails. `files` are written next to the specification."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=env.SCRATCH)
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        mc = "MC_" + module
        body, cfg = [f"---- MODULE {mc} ----", f"EXTENDS {module}", extra_defs], []
        for k, v in (constants or {}).items():
            if v != "@":      # "@": defined in extra_defs
                body.append(f"const_{k} == {_tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        body.append("====")
        with open(os.path.join(d, mc + ".tla"), "w") as fh:
            fh.write("\n".join(body) + "\n")
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg.append(f"INIT {init}")
            cfg.append(f"NEXT {next}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, mc + ".cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["timeout", str(timeout), "tlc", "-config", mc + ".cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
            cmd += ["-seed", str(env.SEED if seed is None else seed)]
        else:
            cmd += ["-fp", "1"]
        if depth is not None:
            cmd += ["-depth", str(depth)]
        cmd.append(mc + ".tla")
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir={env.SCRATCH}"
        t0 = time.monotonic()
        res = TLCResult()
        proc = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True, errors="replace")
        tail = []
        for line in proc.stdout:
            line = line.rstrip("\n")
            if line.startswith('"{'):
                v = json.loads(json.loads(line))
                if on_line is None:
                    res.lines.append(v)
                else:
                    on_line(v)
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res.generated, res.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                res.generated = int(m.group(1))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                res.depth = int(m.group(1))
            m = re.match(r"Error: (Invariant (\S+) is violated|Action property (\S+) is violated"
                         r"|Temporal properties were violated|Deadlock reached)", line)
            if m:
                res.violated = m.group(2) or m.group(3) or m.group(1)
        rc = proc.wait()
        res.wall = time.monotonic() - t0
        res.output = "\n".join(tail)
        if rc == 124:
            if simulate is None:
                raise TLCError(f"TLC timed out on {module}")
        elif rc != 0 and res.violated is None:
            raise TLCError(f"TLC failed on {module} (exit {rc}):\n" + "\n".join(tail[-60:]))
        if res.violated and expect_ok:
            raise TLCError(f"{module}: {res.violated} in the specification itself:\n"
                           + "\n".join(tail[-80:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


class Graph:
    """The state graph TLC explored, from the emitted transitions."""

    def __init__(self, res):
        self.init, self.edges, self.out = [], [], {}
        seen = set()
        for x in res.lines:
            if x["k"] == "I":
                s = canon(x["t"])
                if s not in self.out:
                    self.out[s] = []
                if s not in self.init:
                    self.init.append(s)
            elif x["k"] == "T":
                s, t, e = canon(x["s"]), canon(x["t"]), x["e"]
                key = (s, canon(e), t)
                if key in seen:
                    continue
                seen.add(key)
                self.out.setdefault(s, []).append(len(self.edges))
                self.out.setdefault(t, [])
                self.edges.append((s, e, t))
        self.res = res

    def _parents(self):
        par, queue = {s: None for s in self.init}, list(self.init)
        for s in queue:
            for i in self.out[s]:
                t = self.edges[i][2]
                if t not in par:
                    par[t] = i
                    queue.append(t)
        return par

    def cover(self, rng, max_len=40):
        """Paths (lists of events) that start in an initial state and together take
        every transition: shortest prefix to an untaken one, then as far as untaken
        ones go."""
        par = self._parents()
        todo = {s: [i for i in o if self.edges[i][0] in par] for s, o in self.out.items()}
        for o in todo.values():
            rng.shuffle(o)
        order = [s for s in par if todo[s]]
        paths = []
        for s0 in order:
            while todo[s0]:
                pre, s = [], s0
                while par[s] is not None:
                    pre.append(par[s])
                    s = self.edges[par[s]][0]
                path, s = pre[::-1], s0
                while todo[s] and len(path) < max_len:
                    i = todo[s].pop()
                    path.append(i)
                    s = self.edges[i][2]
                paths.append(path)
        return [self._mk(p) for p in paths]

    def _mk(self, path):
        if not path:
            return dict(init=None, events=[])
        return dict(init=json.loads(self.edges[path[0]][0]),
                    events=[self.edges[i][1] for i in path])

    def walks(self, rng, n, length):
        out = []
        for _ in range(n):
            s, path = rng.choice(self.init), []
            while len(path) < length and self.out[s]:
                i = rng.choice(self.out[s])
                path.append(i)
                s = self.edges[i][2]
            if path:
                out.append(self._mk(path))
        return out


def split_simulation(lines):
    """Behaviours from a -simulate run. TLC may evaluate several transitions from a
    state before it takes one of them: the one the next transition starts from."""
    inits = {canon(x["t"]) for x in lines if x["k"] == "I"}
    groups = []          # of transitions of one step: (level, state, [..])
    for x in lines:
        if x["k"] == "T":
            at = (x.get("l"), canon(x["s"]))
            if not groups or groups[-1][0] != at:
                groups.append((at, []))
            groups[-1][1].append((canon(x["t"]), x))
    out = []
    for i, ((level, s), xs) in enumerate(groups):
        if not out or out[-1] is None:
            if s not in inits or level not in (None, groups[0][0][0]):
                continue
            out.append(dict(init=xs[0][1]["s"], events=[]))
        nxt = groups[i + 1][0] if i + 1 < len(groups) else (None, None)
        follows = nxt[1] if level is None or nxt[0] == level + 1 else None
        taken = [x for t, x in xs if t == follows]
        out[-1]["events"].append((taken or [xs[-1][1]])[-1]["e"])
        if not taken:
            out.append(None)
    return [b for b in out if b]
