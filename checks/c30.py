"""C30: installing and uninstalling packages, with a stand-in for the installer."""
import contextlib
import io
import json
import os
import random
import stat
import subprocess
import sys

from vf import env, tla

REAL = sys.executable
# The installer never runs: sys.executable is this script, which acts on a folder of its own.
PIP = '''#!{python} -IS
import json, os, sys
here = {here!r}
with open(here + "/state.json") as f:
    state = json.load(f)
args = sys.argv[1:]
with open(here + "/calls", "a") as f:
    f.write(json.dumps(args) + chr(10))
def end(n, text):
    print(text)
    sys.exit(n)
if args[:2] != ["-m", "pip"] or args[2:3] not in (["install"], ["uninstall"]):
    end(2, "not understood")
flags = [a for a in args[3:] if a.startswith("-")]
specs = [a for a in args[3:] if not a.startswith("-")]
if state["fails"]:
    end(1, "ERROR: no connection")
site = here + "/site"
stamps = os.stat(site)
def drop(name):
    for dirpath, dirs, files in os.walk(site + "/" + name, topdown=False):
        for f in files:
            os.remove(dirpath + "/" + f)
        os.rmdir(dirpath)
    for f in (site + "/" + name + ".py",):
        if os.path.exists(f):
            os.remove(f)
for spec in specs:
    name, _, version = spec.partition("==")
    there = os.path.exists(site + "/" + name) or os.path.exists(site + "/" + name + ".py")
    if args[2] == "uninstall":
        if "-y" not in flags and "--yes" not in flags:
            end(2, "EOF when reading a line")
        drop(name)
        continue
    if name not in state["packages"]:
        end(1, "ERROR: No matching distribution found for " + spec)
    up = "--upgrade" in flags or "-U" in flags
    if not version and there and not up:
        continue
    version = int(version or state["latest"])
    if not 1 <= version <= state["latest"]:
        end(1, "ERROR: No matching distribution found for " + spec)
    drop(name)
    body = "__version__ = %d" % version + chr(10)
    if [name, version] in state["broken"]:
        body += "import a_module_that_is_not_there" + chr(10)
    if state["packages"][name]:
        os.mkdir(site + "/" + name)
        path = site + "/" + name + "/__init__.py"
    else:
        path = site + "/" + name + ".py"
    with open(path, "w") as f:
        f.write(body)
if state["coarse"]:      # a file system on which this happened within one tick of the clock
    os.utime(site, ns=(stamps.st_atime_ns, stamps.st_mtime_ns))
print("Done")
'''


class Redirected(subprocess.Popen):
    """Whatever remembers what sys.executable was gets the stand-in, too."""
    stand_in = None

    def __init__(self, args, *rest, **kw):
        if self.stand_in and isinstance(args, (list, tuple)) and args and args[0] == REAL:
            args = [self.stand_in, *args[1:]]
        super().__init__(args, *rest, **kw)


class Programs:
    def __init__(self, init):
        env.import_pythagoras()
        rng = self.rng = random.Random(init["n"])
        self.here = f"{env.SCRATCH}/packages{init['n']}"
        for d in ("site", "copies", "home"):
            os.makedirs(f"{self.here}/{d}")
        self.names = {p: f"vf_{rng.choice(['pkg', 'lib', 'x'])}_{p}_{init['n']}" for p in init["packages"]}
        self.back = {v: k for k, v in self.names.items()}
        self.state = dict(packages={v: rng.random() < .5 for v in self.names.values()}, latest=init["latest"],
                          broken=[[self.names[p], v] for p, v in init["broken"]],
                          coarse=rng.random() < .3, fails=False)
        self.broken = {(p, v) for p, v in init["broken"]}
        self.pip = self.here + "/python"
        with open(self.pip, "w") as f:
            f.write(PIP.format(python=REAL, here=self.here))
        os.chmod(self.pip, os.stat(self.pip).st_mode | stat.S_IEXEC)
        self.path = list(sys.path)
        sys.executable = Redirected.stand_in = self.pip
        subprocess.Popen = Redirected
        sys.dont_write_bytecode = True
        self.order = [self.here + "/site", self.here + "/copies"]
        sys.path[:0] = self.order
        from pythagoras._050_safe_functions import package_manager
        self.install, self.uninstall = package_manager.install_package, package_manager.uninstall_package

    def end(self):
        sys.executable, Redirected.stand_in = REAL, None
        sys.path[:] = self.path
        self.forget()

    def forget(self):
        import importlib
        for name in self.back:
            sys.modules.pop(name, None)
        importlib.invalidate_caches()

    def step(self, e):
        calls = self.here + "/calls"
        open(calls, "w").close()
        self.state["fails"] = bool(e.get("fails"))
        with open(self.here + "/state.json", "w") as f:
            json.dump(self.state, f)
        raised, out = False, io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                getattr(self, "do_" + e["a"])(e)
        except Exception:
            raised = True
        with open(calls) as f:
            ran = [self.parse(json.loads(line)) for line in f]
        if len(ran) > 1:
            ran = [dict(ran[0], what=f"{len(ran)} runs")]
        idle = dict(what="nothing", p=e.get("p", ""), v=0, up=False)
        return dict(raised=raised, ran=(ran or [idle])[0], seen={p: self.seen(p) for p in self.names})

    def parse(self, args):
        flags = {a for a in args[2:] if a.startswith("-")}
        specs = [a for a in args[3:] if not a.startswith("-")]
        name, _, version = (specs or [""])[0].partition("==")
        return dict(what=args[2] if len(specs) == 1 else f"{args}", p=self.back.get(name, name),
                    v=int(version) if version.isdigit() else version or 0, up=bool(flags & {"-U", "--upgrade"}))

    def seen(self, p):
        """The version a new process would import, from the files."""
        name = self.names[p]
        for d in self.order:
            for path in (f"{d}/{name}/__init__.py", f"{d}/{name}.py"):
                if os.path.exists(path):
                    with open(path) as f:
                        return int(f.read().split()[2])
        return 0

    def do_Install(self, e):
        kw = {}
        if e["v"]:
            kw["version"] = str(e["v"])
        elif self.rng.random() < .3:
            kw["version"] = None
        if e["up"] or self.rng.random() < .3:
            kw["upgrade"] = e["up"]
        name = self.names[e["p"]]
        if self.rng.random() < .3:
            kw["package_name"] = name
            self.install(**kw)
        else:
            self.install(name, **kw)
        # it can be used from here on
        assert sys.modules[name].__version__ in range(1, self.state["latest"] + 1)

    def do_Uninstall(self, e):
        self.uninstall(self.names[e["p"]])

    def do_Copy(self, e):
        import importlib
        name, path = self.names[e["p"]], f"{self.here}/copies/{self.names[e['p']]}.py"
        if os.path.exists(path):
            os.remove(path)
        if e["v"]:
            with open(path, "w") as f:
                f.write(f"__version__ = {e['v']}\n")
        importlib.invalidate_caches()

    def do_Look(self, e):
        with contextlib.suppress(ImportError):
            __import__(self.names[e["p"]])

    def do_Restart(self, e):
        self.forget()


def run(ctx):
    inv = dict(view="View", action_constraint="Emit", invariants=["TypeOK", "Truth"], properties=["Others"])
    small = dict(Packages={"p"}, Latest=2, Broken={("p", 1)}, MaxSteps=3)
    large = dict(Packages={"p", "q", "r"}, Latest=3, Broken={("p", 3), ("q", 1), ("q", 2)}, MaxSteps=ctx.pick(20, 40))
    jobs = [lambda: ctx.tlc("Packages", constants=small, **inv),
            lambda: ctx.tlc("Packages", constants=large, next="NextSome", simulate=ctx.pick(100, 2000),
                            depth=ctx.pick(22, 42), seed=ctx.seed, **inv)]
    all_small, sim = ctx.parallel(jobs)
    n = 0
    for label, bs, c in (("all small", ctx.some(tla.Graph(all_small).cover(ctx.rng, 40), ctx.pick(300, 20000)), small),
                         ("simulated", tla.split_simulation(sim.lines), large)):
        for b in bs:
            n += 1
            b["init"] = dict(n=n + 100000 * ctx.seed, packages=sorted(c["Packages"]), latest=c["Latest"],
                             broken=sorted(c["Broken"]))
        ctx.replay(bs, Programs, label=label, chunk=10, timeout=200)
