"""C24: output is passed on and captured in order, streams are always restored."""
import io
import logging
import sys

from vf import tla

TEXTS = dict(line="line {n}\n", part="part {n}", empty="", lines="a{n}\nb{n}\n\n", uni="ä\u2028€{n}",
             long="x" * 20000 + "{n}\n", pct="%s {n} %%\n", cr="c{n}\r\n")


BASE, NULL, ALT, BODY = 0, 100, 200, 300


class Boom(Exception):
    pass


class Stream(io.StringIO):
    """A stream that can refuse what is written to it."""
    refusal = None

    def write(self, text):
        if self.refusal:
            raise self.refusal
        return super().write(text)


class TeeDriver:
    def __init__(self, init):
        self.n = 0
        self.base = dict(out=io.StringIO(), err=Stream(), log=io.StringIO())
        self.alt = dict(out=io.StringIO(), err=io.StringIO())
        self.body = io.StringIO()
        sys.stdout, sys.stderr = self.base["out"], self.base["err"]
        self.handler = logging.StreamHandler(self.base["log"])
        self.handler.setLevel(logging.WARNING)
        self.handler.setFormatter(logging.Formatter("%(levelname)s|%(message)s"))
        self.body_handler = logging.StreamHandler(self.body)
        logging.root.handlers = [self.handler]
        logging.root.setLevel(logging.DEBUG)
        self.blocks = []      # [kind, block, (stdout, stderr, handlers) in it]
        self.old = []
        self.ready = None
        self.seen = {}

    def buffers(self):
        """name -> everything it holds"""
        r = {(BASE, f): b.getvalue() for f, b in self.base.items()}
        r |= {(ALT, f): b.getvalue() for f, b in self.alt.items()}
        r[BODY, "log"] = self.body.getvalue()
        for i, (kind, b, _) in enumerate(self.blocks):
            if kind == "capture":
                r[i + 1, "capture"] = b.get_output()
        for i, b in enumerate(self.old):
            r[i, "ended"] = b.get_output()
        if self.ready is not None:
            r["ready", "capture"] = self.ready.get_output()
        return r

    def stream(self, s, f):
        if s is self.base[f]:
            return BASE
        if s is self.alt[f]:
            return ALT
        for i in range(len(self.blocks), 0, -1):
            if s is self.blocks[i - 1][2][f == "err"]:
                return NULL if self.blocks[i - 1][0] == "suppress" else i
        return "unknown"

    def handlers(self):
        r = []
        for h in logging.root.handlers:
            for name, x in [(BASE, self.handler), (BODY, self.body_handler)]:
                if h is x:
                    r.append(name)
                    break
            else:
                for i, b in enumerate(self.blocks):
                    if b[0] == "capture" and h in b[2][2]:
                        r.append(i + 1)
                        break
                else:
                    r.append("unknown")
        return r

    def step(self, e):
        self.n += 1
        self.text = {}      # destination -> what it should get, when not self.plain
        self.plain, self.leaving, self.loose = None, False, 0
        extra = getattr(self, "do_" + e["a"])(e) or {}
        reached = []
        now = self.buffers()
        for k, v in now.items():
            before = self.seen.get(k, "")
            if not v.startswith(before):
                raise AssertionError(f"{k} lost text: {before!r} is now {v!r}")
            new = v[len(before):]
            if new and k[1] == "capture" and k[0] != "ready" and k[0] < self.loose:
                continue
            if new:
                reached.append(list(k))
                want = self.text.get(k[0], self.plain)
                ok = want(new) if callable(want) else new == want
                if not ok:
                    raise AssertionError(f"{k} got {new!r} instead of {want!r}")
        if self.plain == "":
            reached = e["o"]["reached_s"]      # an empty text arrives everywhere, or nowhere
        names = dict(now=dict(out=self.stream(sys.stdout, "out"), err=self.stream(sys.stderr, "err"),
                              log_s=sorted(self.handlers(), key=str)))
        if self.leaving:
            kind, b, _ = self.blocks.pop()
            if kind == "capture":
                self.old.append(b)
                self.seen.pop((len(self.blocks) + 1, "capture"), None)
        self.seen = self.buffers()
        return dict(reached_s=reached) | names | extra

    def do_Construct(self, e):
        from pythagoras._810_output_manipulators import OutputCapturer
        self.ready = OutputCapturer()

    def do_Enter(self, e):
        from pythagoras._810_output_manipulators import OutputCapturer, OutputSuppressor
        if e["early"]:
            b, self.ready = self.ready, None
            self.seen.pop(("ready", "capture"), None)
        else:
            b = OutputCapturer() if e["kind"] == "capture" else OutputSuppressor()
        assert b.__enter__() is b
        self.blocks.append([e["kind"], b, (sys.stdout, sys.stderr, list(logging.root.handlers))])

    def do_Exit(self, e):
        kind, b, _ = self.blocks[-1]
        swallowed = False
        if e["how"] == "normal":
            b.__exit__(None, None, None)
        else:
            how = e["how"].split()
            t = Boom if how[0] == "error" else KeyboardInterrupt
            what = f"boom {self.n}"
            if how[1:]:
                self.base["err"].refusal = [BrokenPipeError("no reader"), ValueError("I/O operation on closed file"),
                                            UnicodeEncodeError("ascii", "e", 0, 1, "no")][self.n % 3]
            try:
                raise t(what)
            except t:
                swallowed = bool(b.__exit__(*sys.exc_info()))
            finally:
                self.base["err"].refusal = None
            if how[1:] and len(e["o"]["reached_s"]) == 1:
                # whether captures further out get it is left open
                self.loose = len(self.blocks)
            self.plain = lambda s: s.startswith("Traceback") and s.count(f"{t.__name__}: {what}\n") == 1
        self.leaving = True
        return dict(swallowed=swallowed)

    def do_Write(self, e):
        f = sys.stdout if e["f"] == "out" else sys.stderr
        t = TEXTS[e["text"]].format(n=self.n) if "%" not in e["text"] else e["text"]
        self.plain = t
        if e["how"] == "print":
            print(t, end="", file=f)
        elif e["how"] == "write":
            got = f.write(t)
            assert got == len(t), f"write returned {got!r}"
        elif e["how"] == "writelines":
            f.writelines([t[:1], t[1:]])
        else:
            f.flush()
            assert f.writable() and not f.isatty()

    def do_Log(self, e):
        log = logging.getLogger("some.child") if e["child"] else logging.getLogger()
        t = TEXTS[e["text"]].format(n=self.n)
        level = getattr(logging, e["level"].upper())
        if self.n % 2:
            log.log(level, "%s of %d", t, self.n)
            msg = f"{t} of {self.n}"
        else:
            msg = t + "\t "
            log.log(level, msg)
        self.plain = msg + "\n"
        self.text[BASE] = f"{e['level'].upper()}|{msg}\n"

    def do_BodyReplaces(self, e):
        if e["f"] == "out":
            sys.stdout = self.alt["out"]
        else:
            sys.stderr = self.alt["err"]

    def do_BodyAddsHandler(self, e):
        logging.root.addHandler(self.body_handler)


def run(ctx):
    consts = dict(MaxDepth=2, Texts={"line"}, Levels={"info", "error"}, Bodies=True)
    res = ctx.tlc("OutputTee", constants=consts, view="View", action_constraint="Emit",
                  invariants=["Restored", "NoLoss"])
    g = tla.Graph(res)
    ctx.replay(g.cover(ctx.rng, 40), TeeDriver, label="capture and suppress", chunk=4)
    consts = dict(MaxDepth=ctx.pick(4, 6), Texts=set(TEXTS), Levels={"info", "warning", "critical"},
                  Bodies=True)
    res = ctx.tlc("OutputTee", constants=consts, view="View", action_constraint="Emit",
                  invariants=["Restored", "NoLoss"], simulate=ctx.pick(12, 400), depth=100)
    ctx.replay(tla.split_simulation(res.lines), TeeDriver, label="capture and suppress, deep")
