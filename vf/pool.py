"""Run scenarios, each in a forked copy of a process that has imported the code
under test and done nothing else with it, on all cores."""
import faulthandler
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import env

N_CORES = max(1, min(8, os.cpu_count() or 1))


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd, deadline=None):
    def need(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    n, = struct.unpack(">I", need(4))
    return pickle.loads(need(n))


def die_with(parent):
    """In a forked child: end when the parent does, however that ends."""
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)       # PR_SET_PDEATHSIG
    except Exception:
        return
    if os.getppid() != parent:
        os._exit(1)


def _quiet():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("VF_DEBUG"):
        os.dup2(null, 2)


def last_line(text):
    """The last line of a traceback that says what was raised."""
    lines = [l for l in str(text).strip().splitlines() if l.strip() not in ("", "__suppress_logging__")]
    return lines[-1] if lines else "nothing"


def own_home():
    """In a forked child: a home directory of its own, as what is kept there (the default
    portal) would otherwise be shared with the others."""
    os.environ["HOME"] = home_of(os.getpid())
    shutil.rmtree(home_of(os.getpid()), ignore_errors=True)


def home_of(pid):
    return os.path.join(env.SCRATCH, f"home{pid}")


def isolated(fn, arg, timeout):
    """fn(arg) in a forked child. Returns ("ok", result), ("raise", text) or ("dead", text)."""
    r, w = os.pipe()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        try:
            die_with(me)
            own_home()
            os.close(r)
            os.setpgid(0, 0)
            _quiet()
            try:
                res = ("ok", fn(arg))
            except BaseException:
                res = ("raise", traceback.format_exc())
            try:
                _send(w, res)
            except BaseException:
                _send(w, ("raise", traceback.format_exc()))
        finally:
            os._exit(0)
    os.close(w)
    try:
        res = _recv(r, time.monotonic() + timeout)
    except TimeoutError:
        res = ("dead", f"no answer within {timeout} s")
    except EOFError:
        res = ("dead", "the process ended without an answer")
    finally:
        os.close(r)
        for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                target()
            except OSError:
                pass
        os.waitpid(pid, 0)
        shutil.rmtree(home_of(pid), ignore_errors=True)
    return res


def run_all(fn, items, timeout=60, isolate=True, stop_after=None, budget=None):
    """[(status, result)] for each item, in order. None for those not run, because
    `stop_after(status, result)` said enough, or `budget` seconds ran out."""
    items = list(items)
    results = [None] * len(items)
    n = min(N_CORES, len(items))
    if n == 0:
        return results
    t_end = None if budget is None else time.monotonic() + budget
    workers = []
    for k in range(n):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        me = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                die_with(me)
                own_home()
                os.close(w1)
                os.close(r2)
                for (_, a, b) in workers:
                    os.close(a)
                    os.close(b)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    try:
                        i = _recv(r1)
                    except EOFError:
                        break
                    if i is None:
                        break
                    if isolate:
                        res = isolated(fn, items[i], timeout)
                    else:
                        _quiet()
                        try:
                            res = ("ok", fn(items[i]))
                        except BaseException:
                            res = ("raise", traceback.format_exc())
                    _send(w2, (i, res))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        workers.append((pid, w1, r2))
    nxt, live, stop = 0, {}, False
    for (pid, w, r) in workers:
        if nxt < len(items):
            _send(w, nxt)
            live[r] = (pid, w, nxt)
            nxt += 1
    try:
        while live:
            ready, _, _ = select.select(list(live), [], [], 5)
            for r in ready:
                pid, w, i0 = live[r]
                try:
                    i, res = _recv(r)
                except EOFError:
                    results[i0] = ("dead", "the worker process ended")
                    del live[r]
                    continue
                results[i] = res
                if stop_after is not None and stop_after(*res):
                    stop = True
                if t_end is not None and time.monotonic() > t_end:
                    stop = True
                if nxt < len(items) and not stop:
                    _send(w, nxt)
                    live[r] = (pid, w, nxt)
                    nxt += 1
                else:
                    _send(w, None)
                    del live[r]
    finally:
        for (pid, w, r) in workers:
            os.close(w)
            os.close(r)
        for (pid, w, r) in workers:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
    return results
