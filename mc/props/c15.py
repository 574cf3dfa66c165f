"""C15: saving and reloading a pulsar preserves its data."""

import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from mc import engine, models, pintstub, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "pulsars of 5-9 (or 158, 1500) TOAs built from timing-package stubs, with planets",
    "feather files hold the documented columns: fitpars and setpars are not among them",
]
BOUNDS = {
    "quick": "all pulsars within 2 deviations over 12 axes x all sequences of up to 3 save/load operations (feather, pickle); likelihoods of "
    "6 models on original and reloaded pulsars",
    "thorough": "3 deviations, sequences of up to 4 operations",
}

T = 1300.0 * 86400.0

AXES = dict(
    src=["t2", "pint"],
    order=["sorted", "rev", "mix"],
    sort=[True, False],
    layout=["AB|A|BA|B", "A|A|A|A|A", "ABCD|DCBA", "AA|AA|A", psrs.long_layout("DBcAa"), psrs.long_layout("cABa", 600)],
    flags=["base", "wideband", "few", "names", "empty"],
    width=[3, 1, 2, 9, 10, 11, 12, 13, 23],
    dmx=[0, 1, 3],
    noise=["none", "arg", "attr", "both", "empty"],
    name=["J0001+0001", "B1855+09", "J1909-3744", "1713+0747", "J0002+0002B"],
    ecl=[False, True],
    window=["no", "early", "late"],
    stoa=["near", "off"],
)
BASE = {k: v[0] for k, v in AXES.items()}


def cases(tier, seed):
    cfgs = list(models.deviations(BASE, AXES, 2 if tier == "quick" else 3))
    k = 6 if tier == "quick" else 20
    depth = 3 if tier == "quick" else 4
    ret = [{"configs": cfgs[i : i + k], "depth": depth} for i in range(0, len(cfgs), k)]
    for o in ("sorted", "rev", "mix"):
        for src in ("t2", "pint"):
            for m in range(len(MODELS)):
                ret.append({"likelihood": m, "order": o, "src": src})
    for src in ("t2", "pint"):
        ret.append({"undropped": src})
    ret.append({"cwd": 1})
    return ret


def raw_of(cfg, seed):
    sp = psrs.spec(name=cfg["name"], layout=cfg["layout"], order="sorted", tm=["off", "F0", "PB"][: min(cfg["width"], 3)],
                   wideband=cfg["flags"] == "wideband")
    raw = psrs.seeded_raw(sp, seed)
    n = len(raw["toas"])
    if cfg["stoa"] == "off":  # site and barycentric arrival times are ordered differently
        raw["stoas"] = raw["toas"] + 0.005 * np.cos(17.0 * np.arange(n))
    for i in range(3, cfg["width"]):
        raw["designmatrix"] = np.hstack([raw["designmatrix"], np.cos(0.7 * i * np.arange(n) + i)[:, None]])
        raw["fitpars"].append("P%d" % i)
    for k in range(cfg["dmx"]):
        nm = "DMX_%04d" % (k + 1)
        raw["designmatrix"] = np.hstack([raw["designmatrix"], ((np.arange(n) % 3) == k)[:, None] * 1.0])
        raw["fitpars"].append(nm)
        raw["setpars"].append(nm)
        raw["vals"][nm] = psrs._Par(1e-3 * (k + 0.123456789), 1e-4)
        raw["vals"]["DMXR1_%04d" % (k + 1)] = psrs._Par(53000.123456789 + k)
        raw["vals"]["DMXR2_%04d" % (k + 1)] = psrs._Par(53001.5 + k)
    f = raw["flags"]
    if cfg["flags"] == "few":
        raw["flags"] = {"f": f["f"]}
    elif cfg["flags"] == "names":
        for j, nm in enumerate(["a_b_c", "x_1", "x_10", "Mmat", "pos_t_0x", "toas", "sunssb", "flags"]):
            f[nm] = np.array(["%s-%d" % (nm, (i * 7 + j) % 5) for i in range(n)])
    elif cfg["flags"] == "empty":
        f["gp"] = np.array(["" if i % 2 else "long value %d" % i for i in range(n)])
        f["group"] = np.array(["G1" if i % 3 == 0 else "" for i in range(n)])
    if cfg["ecl"]:
        raw["vals"]["ELONG"], raw["vals"]["ELAT"] = psrs._Par(1.1), psrs._Par(0.3)
        del raw["vals"]["RAJ"], raw["vals"]["DECJ"]
        raw["setpars"] = [p for p in raw["setpars"] if p not in ("RAJ", "DECJ")] + ["ELONG", "ELAT"]
    perm = {"sorted": np.arange(n), "rev": np.arange(n)[::-1],
            "mix": np.concatenate([np.arange(1, n, 2), np.arange(0, n, 2)])}[cfg["order"]]
    for k in ["toas", "stoas", "toaerrs_us", "residuals", "designmatrix", "freqs_hz", "telescope", "psrPos", "planets", "sun", "letters"]:
        raw[k] = raw[k][perm]
    raw["flags"] = {k: v[perm] for k, v in raw["flags"].items()}
    return raw


def build(cfg, seed, **kw):
    raw = raw_of(cfg, seed)
    if cfg["src"] == "pint":
        return pintstub.make(raw, sort=cfg["sort"], **kw)
    return psrs.from_raw(raw, sort=cfg["sort"], **kw)


ARRAYS = ["toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "pos_t", "planetssb", "sunssb", "pos"]
LABELS = ["backend_flags", "telescope"]


def observe(psr, full):
    """Public data; `full` also what feather files do not hold."""
    ret = {a: np.array(getattr(psr, a)) for a in ARRAYS}
    ret.update({a: [str(x) for x in getattr(psr, a)] for a in LABELS})
    ret["flags"] = {k: [str(x) for x in v] for k, v in psr.flags.items()}
    ret.update(name=psr.name, dm=psr.dm, dmx=psr.dmx, pdist=[float(x) for x in psr.pdist], theta=float(psr.theta), phi=float(psr.phi),
               noisedict=getattr(psr, "noisedict", None))
    if full:
        for a in ("fitpars", "setpars", "parfile", "timfile", "designmatrix_units", "planets"):
            if hasattr(psr, a):
                ret[a] = getattr(psr, a)
        ret["isort"] = np.arange(len(psr.toas))[psr.isort]
        ret["iisort"] = np.arange(len(psr.toas))[psr.iisort]
    return ret


def compare(got, want, label):
    if sorted(got) != sorted(want):
        raise engine.Violation("attributes %s, expected %s (%s)" % (sorted(got), sorted(want), label))
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            ok = g.shape == w.shape and g.dtype.kind == w.dtype.kind and np.array_equal(g, w, equal_nan=g.dtype.kind == "f")
        else:
            ok = g == w
        if not ok:
            raise engine.Violation("%s is %s after %s, was %s" % (k, np.asarray(g).tolist() if k != "flags" else g, label, w))
    return len(want)


def noise(name):
    return {
        name + "_efac": 1.1, name + "_A_log10_t2equad": -6.25, name + "_red_noise_gamma": 3.123456789012345,
        "J9999+9999_efac": 7.0, "gw_" + name + "_x": 1.0, "log10_A": -14.0,
    }


def step(psr, kind, tmp, i, nd=None):
    from enterprise.pulsar import FeatherPulsar, Pulsar

    if kind == "F":
        f = os.path.join(tmp, "x%d.feather" % i)
        if hasattr(psr, "to_feather"):
            psr.to_feather(f, noisedict=nd)
        else:
            psr.save_feather(f, noisedict=nd)
        return Pulsar(f) if i % 2 else FeatherPulsar.read_feather(f)
    d = os.path.join(tmp, "p%d" % i, "deeper")
    if hasattr(psr, "to_pickle"):
        psr.to_pickle(d)
        with open(os.path.join(d, psr.name + ".pkl"), "rb") as f:
            return pickle.load(f)
    return pickle.loads(pickle.dumps(psr))


def check(cfg, seed, depth, tmp):
    n = 0
    outs = set()
    seqs = [s for d in range(1, depth + 1) for s in itertools.product("FP", repeat=d)]
    for seq in seqs:
        psr = build(cfg, seed)
        if cfg["window"] != "no":
            mid = float(np.median(psr.toas)) / 86400.0 + 1e-3
            psr.filter_data(*((None, mid) if cfg["window"] == "early" else (mid, None)))
        nd = None
        mine = {k: v for k, v in noise(psr.name).items() if k.startswith(psr.name)}
        attr = {psr.name + "_efac": 0.5, "J9999+9999_efac": 3.0}
        if cfg["noise"] in ("arg", "both"):
            nd = noise(psr.name)
        if cfg["noise"] == "empty":
            nd = {}
        if cfg["noise"] in ("attr", "both"):
            psr.noisedict = dict(attr)
        want = {False: observe(psr, False), True: observe(psr, True)}
        seen = {k: v for k, v in want[False].items()}
        full, cur = True, psr
        for i, kind in enumerate(seq):
            before = observe(cur, False)
            nxt = step(cur, kind, tmp, i, nd if kind == "F" else None)
            n += compare(observe(cur, False), before, "saving (%s)" % kind)  # saving changes nothing
            if kind == "F":
                full = False
                if nd is not None and cfg["noise"] != "empty":
                    seen["noisedict"] = mine
                elif seen["noisedict"]:
                    seen["noisedict"] = {k: v for k, v in seen["noisedict"].items() if k.startswith(psr.name)}
            exp = dict(want[True] if full else want[False], noisedict=seen["noisedict"])
            if cfg["noise"] == "empty" and kind == "F":
                exp["noisedict"] = None
            n += compare(observe(nxt, full), exp, "%s of %s" % (seq[: i + 1], cfg))
            cur = nxt
        outs.add(engine.outcome_hash([want[False]["toas"], want[False]["flags"]]))
    return len(seqs), n, outs


MODELS = [
    [["mn", {"sel": "backend", "eq": 1}], ["tm", {}]],
    [["mn", {"sel": "tel"}], ["ecorr", {"sel": "backend"}], ["tm", {"marg": 1}], ["red", {"T": T, "n": 2, "sel": "band"}]],
    [["mn", {"sel": "fe"}], ["becorr", {"sel": "nanograv"}], ["tm", {"svd": 1}], ["red", {"n": 2, "basis": "dm", "name": "dm"}]],
    [["mn", {}], ["tm", {}], ["gw", {"T": T, "n": 2}], ["red", {"T": T, "n": 2, "sel": "half"}]],
    [["mn", {"sel": "freqband"}], ["tm", {}], ["wave", {"sel": "backend"}], ["se", {}], ["gw", {"T": T, "n": 1, "orf": "dip"}],
     ["gw", {"T": T, "n": 2, "orf": "mono", "name": "clk"}]],
    [["mn", {"sel": "cdict"}], ["tm", {"normed": False}], ["phys", {}], ["red", {"T": T, "n": 2, "basis": "chrom"}]],
]


def likelihood(desc, seed, tmp):
    ps = [psrs_for(desc, i, seed) for i in range(2)]
    forms = {"original": ps}
    forms["feather"] = [step(p, "F", tmp, i) for i, p in enumerate(ps)]
    forms["pickle"] = [step(p, "P", tmp, 10 + i) for i, p in enumerate(ps)]
    forms["mixed"] = [forms["feather"][0], forms["pickle"][1]]
    forms["pickled feather"] = [step(p, "P", tmp, 20 + i) for i, p in enumerate(forms["feather"])]
    vals, n = {}, 0
    for k, form in forms.items():
        model = models.Model(MODELS[desc["likelihood"]], form)
        pta = model.pta()
        names = {p.name: p.size for p in pta.params}
        vals[k] = (sorted(pta.param_names), [float(pta.get_lnlikelihood(models.values(names, v, seed))) for v in (0, 1)])
        n += 2
    for k, v in vals.items():
        if v[0] != vals["original"][0]:
            raise engine.Violation("parameters %s with %s pulsars, %s with the original ones" % (v[0], k, vals["original"][0]))
        if not models.close(v[1], vals["original"][1], 1e-9):
            raise engine.Violation("log likelihood %s with %s pulsars, %s with the original ones (%s)" % (v[1], k, vals["original"][1], desc))
    return n, [engine.outcome_hash(vals["original"][1])]


def psrs_for(desc, i, seed):
    cfg = dict(BASE, layout=["AB|A|BA|BD", "BB|A|AB|AD|D"][i], name=["J0001+0001", "J1909-3744"][i], order=desc["order"], src=desc["src"],
               sort=desc["order"] != "mix")
    raw = raw_of(cfg, seed + i)
    if i:
        raw["vals"]["RAJ"], raw["vals"]["DECJ"] = psrs._Par(1.7), psrs._Par(-0.6)
    if desc["src"] == "pint":
        p = pintstub.make(raw, sort=cfg["sort"])
        p._planetssb = np.nan_to_num(p._planetssb)
        return p
    return psrs.from_raw(raw, sort=cfg["sort"])


def run_case(desc, seed):
    tmp = tempfile.mkdtemp(prefix="verif_c15_")
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return _run(desc, seed, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _run(desc, seed, tmp):
    if "likelihood" in desc:
        n, outs = likelihood(desc, seed, tmp)
        return {"states": 5, "transitions": n, "evaluations": n, "traces": n, "outcomes": outs, "sample": outs}
    if "undropped" in desc:
        # objects that keep their timing package: it must go, once or twice, and nothing else
        cfg = dict(BASE, src=desc["undropped"], order="mix")
        n = 0
        for reps in (1, 2, 3):
            kw = {"drop_pintpsr": False} if desc["undropped"] == "pint" else {"drop_t2pulsar": False}
            psr = build(cfg, seed, **kw)
            for a in ("t2pulsar", "model", "pint_toas"):
                if hasattr(psr, a):
                    getattr(psr, a).unpicklable = lambda: 1
            if desc["undropped"] == "t2":
                psr.parfile = "PSR x\n"
            want = observe(psr, True)
            if desc["undropped"] == "pint" and not ("parfile" in want and "timfile" in want):
                raise engine.Violation("a PINT pulsar that keeps its objects has no parfile and timfile texts")
            for i in range(reps):
                new = step(psr, "P", tmp, i)
                n += compare(observe(psr, True), want, "pickling")
                n += compare(observe(new, True), want, "unpickling")
                f = step(psr, "F", tmp, i)
                n += compare(observe(f, False), {k: v for k, v in want.items() if k in observe(f, False)}, "feather")
                psr = new if i else psr
        return {"states": 3, "transitions": 6, "evaluations": n, "traces": 6, "outcomes": ["ok"]}
    if "cwd" in desc:
        os.chdir(tmp)
        psr = build(BASE, seed)
        psr.to_pickle()
        with open(os.path.join(tmp, psr.name + ".pkl"), "rb") as f:
            n = compare(observe(pickle.load(f), True), observe(psr, True), "default directory")
        return {"states": 1, "transitions": 1, "evaluations": n, "traces": 1, "outcomes": ["ok"]}
    states = n = 0
    outs = set()
    for cfg in desc["configs"]:
        s, k, o = check(cfg, seed, desc["depth"], tmp)
        states += s
        n += k
        outs |= o
    return {"states": states, "transitions": n, "evaluations": n, "traces": states, "outcomes": sorted(outs), "sample": desc["configs"][0]}
