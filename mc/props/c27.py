"""C27: loading pulsars from par/tim files, feather files and timing-package objects."""

import builtins
import contextlib
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from mc import engine, pintstub, psrs

LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "timing packages are replaced by stand-ins that read the par and tim files they are given (INCLUDEs relative to the working directory)",
    "one failure per loading: an exception in a call to the timing package, in opening a file or in changing directory",
]
BOUNDS = {
    "quick": "paths: 4 working directories x 4 par files x 4 tim files x 7 x 7 ways to write the paths x 2 timing packages; packages: 4 sets of installed packages x 8 requests; "
    "options: all combinations of sort, planets, drop, ephemeris and clock; failures: every access to the timing package, every file opened and the change of "
    "directory failing with each of 3 exceptions x drop options x 2 packages; tim files: all sequences of up to 3 lines of 11 kinds in the main file, and all pairs of "
    "such lines in included files to depth 2; arguments: all positions and mixtures of feather files, ready-made objects and par/tim files; timing solutions: 7 kinds of names x equatorial/ecliptic x 4 positions x "
    "each of 3 DMX parameters fitted, set or absent x 2 packages",
    "thorough": "as quick with sequences of up to 4 lines",
}

EXC = {"RuntimeError": RuntimeError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt}


class Probe(object):
    """Records what the timing package was asked, and makes its n-th access fail."""

    def __init__(self):
        self.reset()

    def reset(self, at=0, kind="RuntimeError"):
        self.n, self.at, self.kind, self.fired, self.loads = 0, at, kind, None, []

    def step(self, what):
        self.n += 1
        if self.n == self.at:
            self.fired = EXC[self.kind]("injected into %s" % what)
            raise self.fired


PROBE = Probe()


def read_tim(name):
    """TOAs of a tim file and of the files that it includes."""
    n = 0
    with open(name) as f:
        for line in f:
            w = line.split()
            if not w or w[0] == "C" or w[0].startswith("#"):
                continue
            if w[0] == "INCLUDE":
                n += read_tim(w[1])
            elif len(w) >= 5:
                float(w[1]), float(w[2]), float(w[3])
                n += 1
    return n


def read_par(name):
    with open(name) as f:
        for line in f:
            w = line.split()
            if w and w[0] == "PSR":
                return w[1]
    raise ValueError("no pulsar in " + name)


def raw_for(name, n):
    lay = "|".join("AB"[i % 2] for i in range(max(n, 1)))
    return psrs.seeded_raw(psrs.spec(name=name, layout=lay, tm=["off", "F0"]), 1)


def fake_libstempo():
    class tempopulsar(psrs.StubTempo2):
        def __init__(self, parfile, timfile=None, warnings=False, fixprefiterrors=True, dofit=False, maxobs=None, units=False, ephem=None, t2cmd=None, clk=None):
            PROBE.step("tempopulsar")
            name, n = read_par(parfile), read_tim(timfile)
            PROBE.loads.append(dict(pkg="tempo2", par=os.path.realpath(parfile), tim=os.path.realpath(timfile), maxobs=maxobs, ephem=ephem, clk=clk, n=n))
            psrs.StubTempo2.__init__(self, raw_for(name, n))
            PROBE.step("tempopulsar (after reading)")
            self._ready = True

        def __getattribute__(self, key):
            get = object.__getattribute__
            if not key.startswith("_") and key != "d" and "_ready" in get(self, "__dict__"):
                PROBE.step("tempopulsar." + key)
            return get(self, key)

    m = types.ModuleType("libstempo")
    m.tempopulsar = tempopulsar
    m.__version__ = "9.9"
    return {"libstempo": m}


def fake_pint():
    class Counted(object):
        def __getattribute__(self, key):
            get = object.__getattribute__
            if not key.startswith("_") and key != "raw" and "_ready" in get(self, "__dict__"):
                PROBE.step("PINT." + key)
            return get(self, key)

    class TOAs(Counted, pintstub.Toas):
        pass

    class TimingModel(Counted, pintstub.Model):
        pass

    class Residuals(pintstub.Residuals):
        def __init__(self, toas, model):
            PROBE.step("Residuals")
            pintstub.Residuals.__init__(self, toas, model)

    def objects(name, n, planets=True):
        raw = dict(raw_for(name, n))
        raw["obs_pos"] = np.random.RandomState(5).randn(len(raw["toas"]), 3) * 100.0
        raw["with_planets"] = planets
        model, toas = TimingModel(raw), TOAs(raw)
        model._ready = toas._ready = True
        return model, toas

    def get_model_and_toas(parfile, timfile, ephem=None, include_bipm=None, bipm_version=None, include_gps=None, planets=None, **kw):
        PROBE.step("get_model_and_toas")
        name, n = read_par(parfile), read_tim(timfile)
        PROBE.loads.append(dict(pkg="pint", par=os.path.realpath(parfile), tim=os.path.realpath(timfile), ephem=ephem, bipm=bipm_version, planets=planets, n=n))
        ret = objects(name, n, planets)
        PROBE.step("get_model_and_toas (after reading)")
        return ret

    mods = {k: types.ModuleType(k) for k in ("pint", "pint.models", "pint.residuals", "pint.toa")}
    mods["pint"].models, mods["pint"].residuals, mods["pint"].toa = mods["pint.models"], mods["pint.residuals"], mods["pint.toa"]
    mods["pint"].__version__ = "9.9"
    mods["pint"].__path__ = []
    mods["pint.models"].TimingModel, mods["pint.models"].get_model_and_toas = TimingModel, get_model_and_toas
    mods["pint.models"].get_model = mods["pint.toa"].get_TOAs = None
    mods["pint.residuals"].Residuals = Residuals
    mods["pint.toa"].TOAs = TOAs
    mods["pint"].objects = objects
    return mods


@contextlib.contextmanager
def installed(*pkgs):
    """enterprise.pulsar, imported with exactly these timing packages installed."""
    mods = {}
    mods.update(fake_libstempo() if "tempo2" in pkgs else {"libstempo": None})
    mods.update(fake_pint() if "pint" in pkgs else {"pint": None})
    names = [m for m in sys.modules if m.split(".")[0] in ("libstempo", "pint")] + ["enterprise.pulsar"] + list(mods)
    keep = {m: sys.modules.get(m, 0) for m in names}
    for m in names:
        sys.modules.pop(m, None)
    sys.modules.update(mods)
    PROBE.reset()
    try:
        yield importlib.import_module("enterprise.pulsar")
    finally:
        for m, v in keep.items():
            sys.modules.pop(m, None)
            if v != 0:
                sys.modules[m] = v


@contextlib.contextmanager
def scratch():
    cwd = os.getcwd()
    top = os.path.realpath(tempfile.mkdtemp(prefix="c27_"))
    try:
        yield top
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


TOA = "obs%d.ff 1400.0 %.5f 1.5 gbt -fe X -be Y\n"


def toas(n, k=0):
    return "".join(TOA % (k + i, 53000.0 + 10 * (k + i)) for i in range(n))


def dataset(top):
    """par and tim files in several directories, with includes and symbolic links."""
    for d, name in (("data", "J0001+0001"), ("par", "J0002+0002"), ("deep/one/two", "J0003+0003"), ("data/sub dir.x", "J0004+0004")):
        write(top + "/%s/p.par" % d, "PSR %s\nF0 100.0\n# %s\n" % (name, d))
        write(top + "/%s/t.tim" % d, "FORMAT 1\n" + toas(2) + "INCLUDE more.tim\n# %s\n" % d)
        write(top + "/%s/more.tim" % d, "FORMAT 1\n" + toas(2, 5))
    os.symlink("deep/one/two", top + "/link")
    os.symlink(top + "/par", top + "/data/plink")
    os.symlink("../par/p.par", top + "/data/alias.par")


DIRS = ["data", "par", "deep/one/two", "data/sub dir.x"]
ALIAS = {"deep/one/two": "link", "par": "data/plink"}
FORMS = ["abs", "rel", "dot", "detour", "alias", "absalias", "through"]


def written(top, d, fname, form):
    """Several ways to write the path of the same file (from the current directory)."""
    real = os.path.join(top, d, fname)
    if form == "abs":
        return real
    if form == "rel":
        return os.path.relpath(real)
    if form == "dot":
        return "./" + os.path.relpath(real)
    if form == "detour":
        return os.path.join(top, "data", "..", d, fname)
    if form == "through":  # up from the directory that a symbolic link points to
        return os.path.join(top, "data/plink/..", d, fname)
    alias = os.path.join(top, ALIAS.get(d, d), fname)
    return alias if form == "absalias" else os.path.relpath(alias, os.getcwd())


# ---------------------------------------------------------------- cases


def attempt(f, expected=None, what=""):
    """Run f; the working directory must be the same afterwards, and every injected failure must come back."""
    before = os.getcwd()
    PROBE.fired = None
    try:
        ret = f()
        exc = None
    except BaseException as e:  # noqa: B036
        if isinstance(e, engine.CaseTimeout):
            raise
        ret, exc = None, e
    now = os.getcwd()
    if now != before:
        raise engine.Violation("the working directory is %s, it was %s (%s%s)" % (now, before, what, ", after %r" % exc if exc else ""))
    if expected is None:
        if exc is not None:
            raise engine.Violation("%s failed with %r" % (what, exc))
        return ret
    if exc is None:
        raise engine.Violation("%s did not report an error" % what)
    if not isinstance(exc, expected):
        raise engine.Violation("%s failed with %r, expected %s" % (what, exc, expected))
    return exc


def judge(load, top, par, tim, what, **want):
    """The timing package was called once, with the right files and a sufficient bound."""
    if len(load) != 1:
        raise engine.Violation("the timing package was called %d times (%s)" % (len(load), what))
    got = load[0]
    want = dict(want, par=os.path.realpath(par), tim=os.path.realpath(tim))
    for k, v in want.items():
        if got.get(k) != v:
            raise engine.Violation("the timing package received %s = %r, expected %r (%s)" % (k, got.get(k), v, what))
    if got["pkg"] == "tempo2" and not (got["maxobs"] is not None and got["maxobs"] >= got["n"]):
        raise engine.Violation("bound of %s TOAs for %d TOAs (%s)" % (got["maxobs"], got["n"], what))


def run_paths(desc, seed):
    n = 0
    with scratch() as top, installed("tempo2", "pint") as pulsar:
        dataset(top)
        os.chdir(os.path.join(top, desc["cwd"]))
        for pd, td in itertools.product(DIRS, DIRS):
            for pf, tf in itertools.product(FORMS, FORMS):
                par, tim = written(top, pd, "p.par", pf), written(top, td, "t.tim", tf)
                what = "par file %s, tim file %s from %s" % (par, tim, desc["cwd"])
                PROBE.reset()
                order = (par, tim) if n % 2 else (tim, par)
                psr = attempt(lambda: pulsar.Pulsar(*order, timing_package=desc["pkg"]), what=what)
                judge(PROBE.loads, top, os.path.join(top, pd, "p.par"), os.path.join(top, td, "t.tim"), what, pkg=desc["pkg"], n=4)
                if psr.name != "J000%d+000%d" % (DIRS.index(pd) + 1, DIRS.index(pd) + 1) or len(psr.toas) != 4:
                    raise engine.Violation("loaded %s with %d TOAs (%s)" % (psr.name, len(psr.toas), what))
                n += 1
        if desc["cwd"] == "data":
            # file names without a directory, links to files, other extensions
            shutil.copy("t.tim", "t.toa")
            for par, tim in (("p.par", "t.tim"), ("alias.par", "t.tim"), ("p.par", "t.toa"), ("plink/p.par", "./t.tim")):
                PROBE.reset()
                attempt(lambda: pulsar.Pulsar(par, tim, timing_package=desc["pkg"]), what=par)
                judge(PROBE.loads, top, par, tim, "par file %s, tim file %s" % (par, tim))
                n += 1
    return n


def run_packages(desc, seed):
    n = 0
    with scratch() as top:
        dataset(top)
        os.chdir(top)
        par, tim = "data/p.par", "deep/one/two/t.tim"
        for have in ((), ("tempo2",), ("pint",), ("tempo2", "pint")):
            with installed(*have) as pulsar:
                for ask in (None, "tempo2", "pint", "Tempo2", "PINT", "TEMPO2", "tempo", ""):
                    want = ask.lower() if ask is not None else (have[0] if have else None)
                    PROBE.reset()
                    what = "timing package %r with %s installed" % (ask, " and ".join(have) or "none")
                    kw = {} if ask is None and n % 2 else {"timing_package": ask}
                    if want in have:
                        attempt(lambda: pulsar.Pulsar(par, tim, **kw), what=what)
                        judge(PROBE.loads, top, par, tim, what, pkg=want)
                    else:
                        attempt(lambda: pulsar.Pulsar(par, tim, **kw), ValueError, what=what)
                        if PROBE.loads:
                            raise engine.Violation("a package was called for " + what)
                    n += 1
                # missing files
                for args in (("data/none.par", tim), (par, "data/none.tim"), ("none.par", "none.tim"), ("data.par", tim), (par, "nodir/x.tim")):
                    attempt(lambda: pulsar.Pulsar(*args), (OSError, ValueError) if not have else OSError, what="missing file %s" % (args,))
                    n += 1
                os.makedirs("dir.tim", exist_ok=True)
                for args in ((par,), (tim,), (), ("data/p.parfile", "data/t.timfile"), ("parfile", "timfile", 3)):
                    attempt(lambda: pulsar.Pulsar(*args), ValueError, what="arguments %s" % (args,))
                    n += 1
                attempt(lambda: pulsar.Pulsar(par, "dir.tim"), OSError, what="a directory instead of a tim file")
                # a missing include must not go unnoticed
                write(top + "/bad/t.tim", "FORMAT 1\n" + toas(2) + "INCLUDE nothere.tim\n")
                for pkg in have:
                    attempt(lambda: pulsar.Pulsar(par, "bad/t.tim", timing_package=pkg), OSError, what="missing include, " + pkg)
                    attempt(lambda: pulsar.Pulsar(par, tim, timing_package=pkg), what="loading after a failure")
                    n += 2
    return n


def run_options(desc, seed):
    n = 0
    with scratch() as top, installed("tempo2", "pint") as pulsar:
        dataset(top)
        os.chdir(top)
        for pkg in ("tempo2", "pint"):
            for sort, planets, drop, ephem, clk, bipm in itertools.product(
                (None, True, False), (None, True, False), (None, True, False), (None, "DE436"), (None, "TT(BIPM2019)"), (None, "BIPM2015")
            ):
                kw = {}
                dropname = "drop_t2pulsar" if pkg == "tempo2" else "drop_pintpsr"
                for k, v in (("sort", sort), ("planets", planets), (dropname, drop), ("ephem", ephem), ("clk", clk), ("bipm_version", bipm)):
                    if v is not None:
                        kw[k] = v
                what = "%s with %s" % (pkg, kw)
                PROBE.reset()
                psr = attempt(lambda: pulsar.Pulsar("par/p.par", "data/t.tim", timing_package=pkg, **kw), what=what)
                want = dict(ephem=ephem)
                if pkg == "tempo2":
                    want["clk"] = clk
                else:
                    want["bipm"] = bipm or (None if clk is None else "BIPM2019")
                    want["planets"] = planets is not False
                judge(PROBE.loads, top, "par/p.par", "data/t.tim", what, **want)
                if isinstance(psr.isort, slice) != (sort is False):
                    raise engine.Violation("sort=%s was not honoured (%s)" % (sort, what))
                if (psr._planetssb is None) != (planets is False) or (psr._sunssb is None) != (planets is False):
                    raise engine.Violation("planets=%s was not honoured (%s)" % (planets, what))
                objs = ["t2pulsar"] if pkg == "tempo2" else ["model", "pint_toas"]
                kept = drop is False
                for a in objs + ["parfile", "timfile"]:
                    if hasattr(psr, a) != kept:
                        raise engine.Violation("attribute %s is %s (%s)" % (a, "missing" if kept else "present", what))
                if kept and pkg == "tempo2" and (psr.parfile != open("par/p.par").read() or psr.timfile != open("data/t.tim").read()):
                    raise engine.Violation("saved par or tim file differs (%s)" % what)
                for _ in range(2):
                    getattr(psr, "drop_tempopsr" if pkg == "tempo2" else "drop_pintpsr")()
                    if any(hasattr(psr, a) for a in objs):
                        raise engine.Violation("%s is still there (%s)" % (objs, what))
                n += 1
    return n


def run_failures(desc, seed):
    n = 0
    pkg, drop, planets, kind = desc["pkg"], desc["drop"], desc["planets"], desc["kind"]
    kw = {"timing_package": pkg, "planets": planets, ("drop_t2pulsar" if pkg == "tempo2" else "drop_pintpsr"): drop}
    with scratch() as top, installed("tempo2", "pint") as pulsar:
        dataset(top)
        for cwd in ("", "data", "deep"):
            os.chdir(os.path.join(top, cwd))
            par, tim = os.path.relpath(top + "/par/p.par"), os.path.relpath(top + "/data/t.tim")
            PROBE.reset()
            ref = attempt(lambda: pulsar.Pulsar(par, tim, **kw), what="loading")
            total = PROBE.n

            def again(what):
                PROBE.reset()
                psr = attempt(lambda: pulsar.Pulsar(par, tim, **kw), what="loading after " + what)
                judge(PROBE.loads, top, par, tim, "after " + what)
                if not np.array_equal(psr.toas, ref.toas) or not np.array_equal(psr.Mmat, ref.Mmat):
                    raise engine.Violation("loading after %s gives other data" % what)

            for k in range(1, total + 1):
                PROBE.reset(k, kind)
                what = "%s in step %d (%s)" % (kind, k, pkg)
                exc = attempt(lambda: pulsar.Pulsar(par, tim, **kw), BaseException, what=what)
                if exc is not PROBE.fired:
                    raise engine.Violation("%s was reported as %r" % (what, exc))
                again(what)
                n += 1
            # ready-made objects
            if cwd == "":
                for k in range(1, total + 1):
                    PROBE.reset()
                    if pkg == "pint":
                        args = sys.modules["pint"].objects("J0001+0001", 4)
                    else:
                        args = [sys.modules["libstempo"].tempopulsar(par, "data/more.tim") if cwd else None]
                        os.chdir("data")
                        args = [sys.modules["libstempo"].tempopulsar("../" + par, "t.tim")]
                        os.chdir("..")
                    PROBE.reset(k, kind)
                    before = os.getcwd()
                    try:
                        pulsar.Pulsar(*args, **kw)
                    except BaseException as exc:  # noqa: B036
                        if exc is not PROBE.fired:
                            raise
                    if os.getcwd() != before:
                        raise engine.Violation("the working directory changed")
                    n += 1
            # files that cannot be opened, and the directory that cannot be entered
            for target in ("open", "chdir"):
                k = 0
                while True:
                    k += 1
                    state = {"n": 0, "exc": None}
                    mod, real = (builtins, builtins.open) if target == "open" else (os, os.chdir)

                    def failing(*a, **b):
                        state["n"] += 1
                        if state["n"] == k:
                            state["exc"] = EXC[kind]("injected into %s %d" % (target, k))
                            raise state["exc"]
                        return real(*a, **b)

                    if target == "chdir" and k > 1:
                        break
                    PROBE.reset()
                    setattr(mod, target, failing)
                    try:
                        before = os.getcwd()
                        try:
                            pulsar.Pulsar(par, tim, **kw)
                            exc = None
                        except BaseException as e:  # noqa: B036
                            exc = e
                    finally:
                        setattr(mod, target, real)
                    if os.getcwd() != before:
                        raise engine.Violation("the working directory is %s after %r" % (os.getcwd(), exc))
                    if state["exc"] is None:
                        break
                    if exc is not state["exc"]:
                        raise engine.Violation("%s was reported as %r" % (state["exc"], exc))
                    again("%s in %s %d" % (kind, target, k))
                    n += 1
    return n


LINES = {
    "toa": lambda i: TOA % (i, 53000.0 + 10 * i),
    "ctoa": lambda i: "C" + TOA % (i, 53000.0 + 10 * i),  # a file name that starts with C
    "itoa": lambda i: (TOA % (i, 53000.0 + 10 * i)).replace("-be Y", "-be Y -note INCLUDED"),
    "indent": lambda i: "  " + TOA % (i, 53000.0 + 10 * i),
    "comment": lambda i: "C " + TOA % (i, 53000.0 + 10 * i),
    "hash": lambda i: "# " + TOA % (i, 53000.0 + 10 * i),
    "hashinc": lambda i: "#INCLUDE nothere.tim\n",
    "cinc": lambda i: "C INCLUDE nothere.tim\n",
    "blank": lambda i: "\n",
    "command": lambda i: "MODE 1\n",
    "include": lambda i: "INCLUDE inc1.tim\n",
}


def run_tim(desc, seed):
    """maxobs for many copies of the same lines, so that the margin of the caller does not matter."""
    n = 0
    rep = 150
    with scratch() as top, installed("tempo2") as pulsar:
        write(top + "/p.par", "PSR J0001+0001\n")
        os.makedirs(top + "/else")
        os.chdir(top + "/else")
        depth = desc["depth"]
        inner = [""] if not desc["inc"] else None
        seqs = [s for d in range(1, depth + 1) for s in itertools.product(sorted(LINES), repeat=d) if s[0] == desc["first"]]
        if inner is None:
            seqs = [s for s in seqs if "include" in s]
        for s in seqs:
            for inc in [("toa",)] if inner is not None else itertools.product(sorted(LINES), repeat=2):
                reps = rep if "include" not in s else 12
                text = toas(2, 500) + "".join(LINES[x](i) for i in range(reps) for x in s)
                write(top + "/t.tim", text if n % 2 else text.rstrip("\n"))
                text = "".join(LINES[x](i).replace("inc1", "inc2") for i in range(12) for x in inc)
                write(top + "/inc1.tim", text.rstrip("\n") if n % 2 else text)
                write(top + "/inc2.tim", toas(3))
                PROBE.reset()
                what = "tim file with %d x %s, including 12 x %s" % (reps, "/".join(s), "/".join(inc))
                attempt(lambda: pulsar.Pulsar("../p.par", "../t.tim"), what=what)
                judge(PROBE.loads, top, top + "/p.par", top + "/t.tim", what)
                lines = PROBE.loads[0]["n"]
                # the bound is the number of TOAs and other lines, not something arbitrary
                os.chdir(top)
                m = pulsar.get_maxobs(top + "/t.tim")
                os.chdir(top + "/else")
                if not (lines <= m <= lines + 2 + (reps * len(s)) + reps * len(s) * (12 * 2 + 12 * 2 * 3)):
                    raise engine.Violation("%d lines counted for %d TOAs (%s)" % (m, lines, what))
                n += 1
    return n


def run_arguments(desc, seed):
    n = 0
    with scratch() as top, installed("tempo2", "pint") as pulsar:
        dataset(top)
        os.chdir(top)
        a = pulsar.Pulsar("data/p.par", "data/t.tim")
        a.to_feather("data/x.feather")
        a.to_feather("data/x.bin")
        model, ptoas = sys.modules["pint"].objects("J0007+0007", 3)
        os.chdir("par")
        t2p = sys.modules["libstempo"].tempopulsar("p.par", "t.tim")
        os.chdir(top)
        files = ["data/p.par", "deep/one/two/t.tim"]
        feather = "data/x.feather"

        def cls(x):
            return type(x).__name__

        for extra in ([], ["other"], [3], ["other", None]):
            for perm in itertools.permutations([feather] + extra):
                psr = attempt(lambda: pulsar.Pulsar(*perm), what="feather in %s" % (perm,))
                if cls(psr) != "FeatherPulsar" or psr.name != a.name or not np.array_equal(psr.toas, a.toas):
                    raise engine.Violation("feather file in %s gave %r" % (perm, psr))
                n += 1
            for perm in itertools.permutations([model, ptoas] + extra):
                for kw in ({}, {"sort": False}, {"planets": False}, {"drop_pintpsr": False}):
                    psr = attempt(lambda: pulsar.Pulsar(*perm, **kw), what="PINT objects in another position")
                    if cls(psr) != "PintPulsar" or psr.name != "J0007+0007" or len(psr.toas) != 3:
                        raise engine.Violation("PINT objects gave %r" % psr)
                    if isinstance(psr.isort, slice) != (kw.get("sort") is False) or (psr._planetssb is None) != (kw.get("planets") is False):
                        raise engine.Violation("options %s were not honoured" % kw)
                    if hasattr(psr, "model") != (kw.get("drop_pintpsr") is False):
                        raise engine.Violation("drop_pintpsr was not honoured")
                    n += 1
            for perm in itertools.permutations([t2p] + extra):
                for kw in ({}, {"sort": False}, {"planets": False}, {"drop_t2pulsar": False}):
                    psr = attempt(lambda: pulsar.Pulsar(*perm, **kw), what="tempo2 object in another position")
                    if cls(psr) != "Tempo2Pulsar" or psr.name != "J0002+0002" or len(psr.toas) != 4:
                        raise engine.Violation("tempo2 object gave %r" % psr)
                    if isinstance(psr.isort, slice) != (kw.get("sort") is False) or (psr._planetssb is None) != (kw.get("planets") is False):
                        raise engine.Violation("options %s were not honoured" % kw)
                    if hasattr(psr, "t2pulsar") != (kw.get("drop_t2pulsar") is False):
                        raise engine.Violation("drop_t2pulsar was not honoured")
                    for _ in range(2):
                        psr.drop_tempopsr()
                    n += 1
            for perm in itertools.permutations(files + extra):
                PROBE.reset()
                psr = attempt(lambda: pulsar.Pulsar(*perm), what="par and tim files in %s" % (perm,))
                judge(PROBE.loads, top, files[0], files[1], "arguments %s" % (perm,))
                n += 1
        psr = attempt(lambda: pulsar.Pulsar(filepath="data/x.bin"), what="feather file by keyword")
        if cls(psr) != "FeatherPulsar" or psr.name != a.name:
            raise engine.Violation("filepath gave %r" % psr)
        # a feather file that does not exist
        attempt(lambda: pulsar.Pulsar("data/none.feather"), OSError, what="missing feather file")
        attempt(lambda: pulsar.Pulsar(filepath="data/none.feather"), OSError, what="missing feather file")
        # one PINT object alone is not a pulsar
        for x in (model, ptoas):
            attempt(lambda: pulsar.Pulsar(x), ValueError, what="an incomplete pair of PINT objects")
        n += 5
    return n


NAMES = ["J1713+0747", "B1855+09", "1713+0747", "1855+09", "J0099+0099", "B0099+09", "0099+09", "J1713+0747B", "1855+09A"]
DMXS = ["DMX_0003", "DMX_0001", "DMX_0012"]


def run_solution(desc, seed):
    """What a pulsar reports of its timing solution: position, distance, DM, DMX intervals, fitted and set parameters."""
    import json

    import enterprise

    with open(os.path.join(enterprise.__path__[0], "datafiles", "pulsar_distances.json")) as f:
        table = json.load(f)
    n = 0
    eps = 23.4393 * np.pi / 180.0
    for name, ecl, state in itertools.product(NAMES, (False, True), itertools.product("fs-", repeat=len(DMXS))):
        if ecl and name.startswith("B"):
            continue  # B names: coordinates of another epoch
        raw = psrs.seeded_raw(psrs.spec(name=name, layout="A|B|A", pos=desc["pos"], tm=["off", "F0"]), seed)
        raw["setpars"] = ["RAJ", "DECJ", "DM", "F0", "F1"]
        cols = [raw["designmatrix"]]
        want = {}
        for i, (k, st) in enumerate(zip(DMXS, state)):
            if st == "-":
                continue
            lo, hi, err = 53000.0 + i, 53004.5 + i, 1e-4 * i
            if st == "f":
                raw["fitpars"].append(k)
                cols.append(np.arange(1.0, 4.0)[:, None] + i)
            raw["setpars"].append(k)
            raw["vals"][k] = psrs._Par(1e-3 * (i + 1), err)
            raw["vals"][k[:3] + "R1" + k[3:]] = psrs._Par(lo)
            raw["vals"][k[:3] + "R2" + k[3:]] = psrs._Par(hi)
            want[k] = {"DMX": 1e-3 * (i + 1), "DMXerr": err, "DMXR1": lo, "DMXR2": hi, "fit": st == "f"}
        raw["designmatrix"] = np.hstack(cols)
        ra, dec = raw["raj"], raw["decj"]
        if ecl:
            x = np.array([np.cos(ra) * np.cos(dec), np.sin(ra) * np.cos(dec), np.sin(dec)])
            y = np.array([[1, 0, 0], [0, np.cos(eps), np.sin(eps)], [0, -np.sin(eps), np.cos(eps)]]) @ x
            raw["vals"]["ELONG"] = psrs._Par(np.arctan2(y[1], y[0]) % (2 * np.pi))
            raw["vals"]["ELAT"] = psrs._Par(np.arcsin(y[2]))
            del raw["vals"]["RAJ"], raw["vals"]["DECJ"]
            raw["setpars"] = ["ELONG", "ELAT"] + raw["setpars"][2:]
        for src in ("t2", "pint"):
            psr = psrs.from_raw(raw) if src == "t2" else pintstub.make(raw)
            label = (name, "ecliptic" if ecl else "equatorial", "".join(state), src)

            def check(what, got, exp, tol=None):
                ok = np.shape(got) == np.shape(exp) and np.max(np.abs(np.asarray(got) - np.asarray(exp))) < tol if tol else got == exp
                if not ok:
                    raise engine.Violation("%s of %s is %s, expected %s" % (what, label, got, exp))

            check("name", psr.name, name)
            dist = table.get(name) or table.get("J" + name) or table.get("B" + name) or (1.0, 0.2)
            check("pdist", tuple(psr.pdist), tuple(dist))
            tol = 2e-5 if ecl else 1e-12
            check("phi", psr.phi % (2 * np.pi), ra % (2 * np.pi), tol)
            check("theta", psr.theta, np.pi / 2 - dec, tol)
            check("pos", psr.pos, np.array([np.cos(ra) * np.cos(dec), np.sin(ra) * np.cos(dec), np.sin(dec)]), tol)
            check("dm", psr.dm, 12.0)
            check("fitpars", list(psr.fitpars), ["Offset"] + raw["fitpars"])
            got = {k: v for k, v in (psr.dmx or {}).items() if src == "t2" or v["fit"]}
            exp = {k: v for k, v in want.items() if src == "t2" or v["fit"]}
            if src == "pint":  # a parameter without uncertainty
                exp = {k: dict(v, DMXerr=v["DMXerr"] or None) for k, v in exp.items()}
            check("dmx", got, exp)
            if not want:
                check("dmx", psr.dmx, None)
            known = [k for k in raw["setpars"] if src == "t2" or k in raw["vals"]]
            check("setpars", sorted(k for k in psr.setpars if k in known), sorted(set(known) - set(raw["fitpars"])))
            if set(psr.setpars) & set(psr.fitpars):
                raise engine.Violation("parameters of %s both set and fitted: %s" % (label, psr.setpars))
            n += 1
    return n


def cases(tier, seed):
    ret = [{"packages": 1}, {"options": 1}, {"arguments": 1}]
    ret += [{"solution": 1, "pos": p} for p in range(4)]
    ret += [{"paths": 1, "cwd": c, "pkg": p} for p in ("tempo2", "pint") for c in ("", "data", "par", "link")]
    for pkg in ("tempo2", "pint"):
        for drop, planets, kind in itertools.product((True, False), (True, False), sorted(EXC)):
            ret.append({"failures": 1, "pkg": pkg, "drop": drop, "planets": planets, "kind": kind})
    depth = 3 if tier == "quick" else 4
    ret += [{"tim": 1, "first": f, "depth": depth, "inc": 0} for f in sorted(LINES)]
    ret += [{"tim": 1, "first": f, "depth": depth - 1, "inc": 1} for f in sorted(LINES)]
    return ret


def run_case(desc, seed):
    for k, f in (("paths", run_paths), ("packages", run_packages), ("options", run_options), ("failures", run_failures), ("tim", run_tim), ("solution", run_solution), ("arguments", run_arguments)):
        if k in desc:
            n = f(desc, seed)
            return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [engine.outcome_hash([sorted(desc.items()), n])]}
    raise ValueError(desc)
