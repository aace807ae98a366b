"""Processes that share a store in memory and run one at a time, as a schedule says.

Each is forked; its store sends every operation to the scheduler and waits for the
answer. Operations the scenario finds interesting, sleeps and notes are stops: there
the process waits until it is its turn."""
import os
import signal
import time

from . import env
from .pool import _quiet, _recv, _send, die_with
from .simdict import LocalBackend, SimDict


class Injected(OSError):
    """An error of the storage."""


class RemoteBackend:
    def __init__(self, r, w):
        self.r, self.w = r, w

    def ask(self, *msg):
        _send(self.w, msg)
        ok, x = _recv(self.r)
        if not ok:
            raise x
        return x

    def has(self, path):
        return self.ask("op", "has", path)

    def read(self, path):
        return self.ask("op", "read", path)

    def write(self, path, blob, immutable):
        return self.ask("op", "write", path, blob, immutable)

    def remove(self, path):
        return self.ask("op", "remove", path)

    def list(self, prefix, suffix):
        return self.ask("op", "list", prefix, suffix)

    def stamp(self, path):
        return self.ask("op", "stamp", path)


class Procs:
    def __init__(self, interesting, on_op=None, on_note=None):
        """interesting(op, path): is this a stop? on_op(name, op, args, result) and
        on_note(name, what, data) are called in the order things happen."""
        self.backend = LocalBackend()
        self.interesting, self.on_op, self.on_note = interesting, on_op, on_note
        self.procs, self.pending, self.result = {}, {}, {}

    def start(self, name, fn):
        """Fork a process for fn(note), up to its first stop. note(what, data) is a stop."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        me = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                die_with(me)
                os.close(w1)
                os.close(r2)
                for _, a, b in self.procs.values():
                    os.close(a)
                    os.close(b)
                _quiet()
                b = SimDict.backend = RemoteBackend(r1, w2)
                env.clock.start(on_sleep=lambda s: setattr(env.clock, "t", b.ask("sleep", s)))
                res = fn(lambda what, **data: b.ask("note", what, data))
                b.ask("end", res)
            except BaseException:
                import traceback
                _send(w2, ("dead", traceback.format_exc()))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.procs[name] = (pid, w1, r2)
        self._until_stop(name)

    def running(self, name):
        return name in self.pending

    def _until_stop(self, name):
        _, w, r = self.procs[name]
        try:
            while True:
                msg = _recv(r, time.monotonic() + 60)
                if msg[0] == "end" or msg[0] == "dead":
                    self.result[name] = msg
                    self._reap(name)
                    return
                if msg[0] != "op" or self.interesting(msg[1], msg[2]):
                    self.pending[name] = msg
                    return
                self._serve(name, msg)
        except (EOFError, TimeoutError):
            self.result[name] = ("dead", "the process ended or hangs")
            self._reap(name)

    def _serve(self, name, msg, fault=None):
        """fault: "before" or "after": the store reports an error, before or after doing
        what it is asked to."""
        _, w, _ = self.procs[name]
        if msg[0] == "note":
            answer = (True, self.on_note(name, msg[1], msg[2]) if self.on_note else None)
        elif msg[0] == "sleep":
            env.clock.t += msg[1]
            answer = (True, env.clock.t)
        else:
            try:
                if fault == "before":
                    raise Injected("injected")
                answer = (True, getattr(self.backend, msg[1])(*msg[2:]))
            except Exception as x:
                answer = (False, x)
            if self.on_op:
                self.on_op(name, msg[1], msg[2:], answer)
            if fault == "after":
                answer = (False, Injected("injected"))
            if fault and self.on_note:
                self.on_note(name, "Fault", dict(x="fault"))
        _send(w, answer)

    def advance(self, name, fault=None):
        """Let it do what it stopped before, and go on to its next stop. A fault waits
        until there is an operation that can fail."""
        msg = self.pending.pop(name, None)
        if msg is None:
            return False
        self._serve(name, msg, fault if msg[0] == "op" else None)
        self._until_stop(name)
        if fault and msg[0] != "op":
            return self.advance(name, fault)
        return True

    def kill(self, name):
        self.pending.pop(name, None)
        self._reap(name)

    def _reap(self, name):
        if name not in self.procs:
            return
        pid, w, r = self.procs.pop(name)
        os.close(w)
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)

    def close(self):
        for name in list(self.procs):
            self.kill(name)
