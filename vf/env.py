"""Where things are, and how the code under test gets imported.

Import this module before anything else: it puts the stand-ins for the packages
that cannot be installed here (compat/) and /repo on sys.path, gives the process
an empty HOME, and puts trampolines under time.time and time.sleep so that a
scenario can run on virtual time whichever way the code imported them.
"""
import atexit
import os
import shutil
import sys
import tempfile
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

_owner = os.getpid()
SCRATCH = tempfile.mkdtemp(prefix="vf_")


@atexit.register
def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


os.environ["HOME"] = SCRATCH + "/home"
os.environ["TMPDIR"] = SCRATCH + "/tmp"
os.makedirs(os.environ["HOME"])
os.makedirs(os.environ["TMPDIR"])
tempfile.tempdir = None
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for p in (REPO, VERIF + "/compat"):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
if VERIF not in sys.path:
    sys.path.append(VERIF)
warnings.simplefilter("ignore")


class Clock:
    """Virtual time. While `on` is False the real clock is used."""

    def __init__(self):
        self.on = False
        self.t = 0.0
        self.sleeps = []
        self.on_sleep = None
        self.real_time, self.real_sleep = time.time, time.sleep

    def start(self, t=1_800_000_000.0, on_sleep=None):
        self.on, self.t, self.sleeps, self.on_sleep = True, t, [], on_sleep

    def stop(self):
        self.on = False

    def time(self):
        return self.t if self.on else self.real_time()

    def sleep(self, s):
        if not self.on:
            return self.real_sleep(s)
        assert s >= 0
        self.sleeps.append(s)
        if self.on_sleep is not None:
            self.on_sleep(s)
        else:
            self.t += s


clock = Clock()
time.time = clock.time
time.sleep = clock.sleep


class ProcessContext:
    """What multiprocessing.get_context returns to the code under test: the real
    thing, or `factory(method)` while a scenario has set one."""

    def __init__(self):
        import multiprocessing
        self.real = multiprocessing.get_context
        self.factory = None

    def get_context(self, method=None):
        return self.real(method) if self.factory is None else self.factory(method)


process_context = ProcessContext()


def _memoize_autopep8():
    """autopep8 takes most of the time of everything here, always for the same few
    texts: remember what it answers (a function of its arguments alone)."""
    import autopep8
    real, known = autopep8.fix_code, {}

    def fix_code(source, options=None, *args, **kwargs):
        if args or kwargs or not isinstance(source, str):
            return real(source, options, *args, **kwargs)
        key = (source, repr(options))
        if key not in known:
            if len(known) > 20000:
                known.clear()
            known[key] = real(source, options)
        return known[key]
    autopep8.fix_code = fix_code


def virtual_dates():
    """Let the code under test take the date from the virtual clock, too."""
    import datetime as real

    class datetime(real.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(clock.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(clock.time())

        @classmethod
        def today(cls):
            return cls.now()

    class date(real.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(clock.time())
    module = type(sys)("datetime")
    module.__dict__.update(vars(real), datetime=datetime, date=date)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "pythagoras":
            for k, v in list(vars(m).items()):
                for old, new in ((real, module), (real.datetime, datetime), (real.date, date)):
                    if v is old:
                        setattr(m, k, new)
    if time.gmtime.__module__ == "time":
        gmtime, localtime, strftime = time.gmtime, time.localtime, time.strftime
        time.gmtime = lambda secs=None: gmtime(clock.time() if secs is None else secs)
        time.localtime = lambda secs=None: localtime(clock.time() if secs is None else secs)
        time.strftime = lambda form, t=None: strftime(form, time.localtime() if t is None else t)


def import_pythagoras():
    """Import the code under test, once, and check that it is the one in REPO."""
    import multiprocessing
    multiprocessing.get_context = process_context.get_context
    _memoize_autopep8()
    import pythagoras
    where = os.path.dirname(os.path.dirname(os.path.abspath(pythagoras.__file__)))
    assert os.path.realpath(where) == os.path.realpath(REPO), where
    return pythagoras
