"""C02: the likelihood is the marginalized Gaussian likelihood of the model, for every composition."""

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
RULE = "every model configuration within k deviations of the base configurations; each evaluated at 2 parameter points through every evaluation route"
ASSUMPTIONS = [
    "pulsars of 5-17 (or 158, 1305) TOAs, up to 5 (or 14) pulsars, 1-3 (or 12, 70) frequencies per Gaussian process",
    "one data realization per seed; values compared to 1e-6 relative (float64 dense algebra as oracle)",
]
BOUNDS = {
    "quick": "<=2 deviations from two base models over 13 axes, <=1 deviation from two more; 1305 TOAs, 14 pulsars and 70 frequencies with one deviation; 2 parameter points x likelihood routes",
    "thorough": "<=3 deviations from four base models over 13 axes; 2 parameter points x likelihood routes",
}

AXES = {
    "psrs": ["one", "two", "three", "mix2", "same", "single", "five", "systems", "long"],
    "white": ["plain", "back", "eq", "eqback", "tneq", "two", "half"],
    "ecorr": ["", "sherman-morrison", "fast-sherman-morrison", "block", "sparse", "b:sherman-morrison",
              "b:fast-sherman-morrison", "b:block", "b:sparse", "basis", "b:basis"],
    "tm": ["", "tm", "raw", "svd", "marg", "margraw", "excl"],
    "red": ["", "pl", "plback", "free", "turn", "modes", "fmin", "coeff", "dense", "n12"],
    "dm": ["", "dm", "vidx", "nocomb", "halfdm"],
    "gw": ["", "hd", "mono", "dip", "par", "unc", "free", "dense", "hddm", "hdvidx"],
    "gw2": ["", "mono", "hdlong"],
    "kern": ["", "se", "seback"],
    "wave": ["", "one", "band"],
    "hole": ["", "white0", "gw0"],
    "pars": ["", "const", "value", "shared"],
    "term": ["", "one", "two", "last"],
}

BASES = [
    {"psrs": "two", "white": "back", "ecorr": "", "tm": "tm", "red": "pl", "dm": "", "gw": "hd", "gw2": "",
     "kern": "", "wave": "", "term": "", "hole": "", "pars": ""},
    {"psrs": "one", "white": "back", "ecorr": "sherman-morrison", "tm": "tm", "red": "pl", "dm": "dm", "gw": "", "gw2": "",
     "kern": "", "wave": "one", "term": "", "hole": "", "pars": ""},
    {"psrs": "mix2", "white": "eqback", "ecorr": "b:sparse", "tm": "marg", "red": "coeff", "dm": "vidx", "gw": "unc",
     "gw2": "", "kern": "", "wave": "", "term": "", "hole": "", "pars": "const"},
    {"psrs": "three", "white": "back", "ecorr": "b:basis", "tm": "tm", "red": "plback", "dm": "dm", "gw": "hd",
     "gw2": "mono", "kern": "se", "wave": "band", "term": "two", "hole": "", "pars": "shared"},
]

T = 1400.0 * 86400.0


def psr_specs(kind):
    p1 = psrs.spec(name="J0001+0001", layout="AB|A|BA|B|AA", pos=0, seed=1)
    p2 = psrs.spec(name="B0002-0002", layout="B|AAB|A|BA", pos=1, seed=2, tm=["off", "F0"])
    p3 = psrs.spec(name="J0003+0003", layout="ABAB|B|A|B", pos=2, seed=3)
    if kind == "one":
        return [p1]
    if kind == "two":
        return [p1, p2]
    if kind == "three":
        return [p1, p2, p3]
    if kind == "mix2":  # unsorted data, one of them kept unsorted
        return [dict(p1, order="mix"), dict(p3, order="rev", sort=False)]
    if kind == "same":  # two pulsars at the same position
        return [p1, dict(p2, pos=0)]
    if kind == "single":  # the second pulsar has no epoch with several TOAs
        return [p1, psrs.spec(name="J0006-0006", layout="A|B|B|A|B|A", pos=3, seed=5, tm=["off", "F0"])]
    if kind == "five":
        return [p1, dict(p3, order="mix"), psrs.spec(name="J0004-0004", layout="B|A|B|A|AB|A|BA|BB", pos=3, seed=6), p2,
                psrs.spec(name="B0005+0005", layout="AA|B|BB|A|B", pos=[2.9, 0.1], seed=7, tm=["off", "F0"])]
    if kind == "systems":  # four observing systems, not in alphabetical order
        return [psrs.spec(name="J0007+0007", layout="DBCA|CD|B|AA|DC|BA|C|D", pos=0, seed=8), p2]
    if kind == "long":  # 158 TOAs, one epoch with 12 of them
        return [psrs.spec(name="J0008+0008", layout=psrs.long_layout(), pos=3, seed=9, order="mix", span=3300.0, step=0.05), p2]
    if kind == "huge":  # 1305 TOAs
        return [psrs.spec(name="J0009+0009", layout=psrs.long_layout("BAC", 518), pos=3, seed=11, order="mix", span=3300.0, step=0.05), p2]
    if kind == "many":  # 14 pulsars
        return [dict([p1, p2, p3][i % 3], name="J%04d+0001" % (11 * i % 14), seed=20 + i, pos=[0.4 * i, 1.2 * np.sin(1.7 * i)])
                for i in range(14)]
    raise ValueError(kind)


def components(cfg):
    comps = []
    kinds = {"const": {"log10_ecorr": "c", "gamma": "c"}, "value": {"gamma": "v", "efac": "v"},
             "shared": {"log10_A": "s:all_log10_A", "efac": "s:all_efac"}}.get(cfg["pars"], {})

    def add(k, **o):
        o["pars"] = dict(kinds, **o.get("pars", {}))
        comps.append([k, o])

    w = cfg["white"]
    if w == "plain":
        add("mn")
    elif w == "back":
        add("mn", sel="backend")
    elif w == "eq":
        add("mn", eq=1)
    elif w == "eqback":
        add("mn", eq=1, sel="backend")
    elif w == "half":
        add("mn", eq=1, sel="half")
    elif w == "tneq":
        add("mn", sel="backend")
        add("tneq", sel="band")
    elif w == "two":
        add("mn", name="first")
        add("mn", name="second", sel="backend")

    e = cfg["ecorr"]
    if e:
        sel = "backend" if e.startswith("b:") else None
        m = e.split(":")[-1]
        if m == "basis":
            add("becorr", sel=sel)
        else:
            add("ecorr", sel=sel, method=m)

    t = cfg["tm"]
    if t:
        o = {"tm": {}, "raw": {"normed": False}, "svd": {"svd": 1}, "marg": {"marg": 1},
             "margraw": {"marg": 1, "normed": False}, "excl": {"exclude": [1]}}[t]
        add("tm", **o)

    r = cfg["red"]
    if r:
        o = {
            "pl": {}, "plback": {"sel": "backend"}, "free": {"spec": "free"}, "turn": {"spec": "turn"},
            "modes": {"modes": [1.0e-8, 2.3e-8]}, "fmin": {"fmin": 0.7e-8, "fmax": 3e-8, "T": None},
            "coeff": {"coeff": 1}, "dense": {"spec": "dense"}, "n12": {"n": 12}, "n70": {"n": 70},
        }[r]
        o = dict({"T": T, "n": 2}, **o)
        add("red", **o)

    d = cfg["dm"]
    if d:
        o = {
            "dm": {"basis": "dm"}, "vidx": {"basis": "chrom", "vidx": 1}, "nocomb": {"basis": "red", "combine": False},
            "halfdm": {"basis": "dm", "sel": "half", "combine": False},
        }[d]
        add("red", **dict({"T": T, "n": 2, "name": "dm_gp", "combine": True}, **o))

    def addgw(g, name):
        o = {
            "hd": {"orf": "hd"}, "mono": {"orf": "mono"}, "dip": {"orf": "dip"}, "par": {"orf": "par"},
            "free": {"orf": "hd", "spec": "free"}, "dense": {"orf": "hd", "spec": "dense"},
            "hddm": {"orf": "hd", "basis": "dm"}, "hdvidx": {"orf": "hd", "basis": "chrom"},
            "hdlong": {"orf": "hd", "n": 3},
        }
        if g == "unc":  # uncorrelated common spectrum: shared hyperparameters
            add("red", T=T, n=2, name=name, pars={"log10_A": "s:gw_log10_A", "gamma": "s:gw_gamma"})
        elif g:
            add("gw", **dict({"T": T, "n": 2, "name": name}, **o[g]))

    addgw(cfg["gw"], "gw")
    addgw(cfg["gw2"], "gw2")

    if cfg["kern"]:
        add("se", sel="backend" if cfg["kern"] == "seback" else None, dt=450.0)
    if cfg["wave"]:
        add("wave", sel="band" if cfg["wave"] == "band" else None)

    npsr = len(psr_specs(cfg["psrs"]))
    # signals that add terms to the log likelihood
    if cfg["term"]:
        add("extra", **({"psrs": [npsr - 1]} if cfg["term"] == "last" else {}))
    if cfg["term"] == "two":
        add("extra", name="more", pars={"amp": "s:common_amp"})
    if cfg["hole"] == "white0":  # the first pulsar has white noise (and waveforms) only
        for k, o in comps:
            if k in ("red", "gw", "se", "becorr") or (k == "tm"):
                o["psrs"] = list(range(1, npsr))
    elif cfg["hole"] == "gw0":  # the common process is not used for the second pulsar
        for k, o in comps:
            if k == "gw":
                o["psrs"] = [i for i in range(npsr) if i != 1]
    return comps


def valid(cfg):
    if cfg["hole"] and len(psr_specs(cfg["psrs"])) == 1:
        return False
    if cfg["psrs"] == "same" and (cfg["gw"] in ("mono", "dip", "hd", "free", "dense", "hddm", "hdvidx", "par")
                                  or cfg["gw2"]):
        # identical positions: the documented "+1e-5" regularization makes Phi (nearly) singular
        return False
    if cfg["hole"] == "gw0" and cfg["psrs"] != "three" and False:
        return False
    names = [o.get("name", k) for k, o in components(cfg)]
    return True


def cases(tier, seed):
    seen, ret = set(), []
    depth = {"quick": [2, 2, 1, 1], "thorough": [3, 3, 3, 3]}[tier]
    for d in range(max(depth) + 1):
        for base, k in zip(BASES, depth):
            for cfg in models.deviations(base, AXES, min(d, k)):
                key = tuple(sorted(cfg.items()))
                if key not in seen and valid(cfg):
                    seen.add(key)
                    ret.append(cfg)
    # sizes beyond those of the axes: one deviation at a time
    for base in BASES:
        for cfg in models.deviations(base, AXES, 1):
            for big in ("huge", "many"):
                c = dict(cfg, psrs=big)
                key = tuple(sorted(c.items()))
                if cfg["psrs"] == base["psrs"] and key not in seen and (tier == "thorough" or base in BASES[:2]):
                    seen.add(key)
                    ret.append(c)
        for big in ("huge", "many"):
            c = dict(base, psrs=big, red="n70")
            ret.append(c)
    return ret


def run_case(cfg, seed):
    from enterprise.signals import signal_base

    ps = [psrs.make_psr(s, seed) for s in psr_specs(cfg["psrs"])]
    comps = components(cfg)
    nev, outs, sample = 0, [], None
    for cls in (signal_base.LogLikelihood, signal_base.LogLikelihoodDenseCholesky):
        model = models.Model(comps, ps)
        pta = model.pta(cls)
        free, const = model.names()
        for variant in range(2):
            pars = models.values(free, variant, seed)
            expected = models.lnlike(model.accs(pars))
            vec = np.concatenate([np.atleast_1d(pars[n]) for n in sorted(pars)]) if pars else np.zeros(0)
            for method in ("cliques", "partition", "sparse"):
                if method == "partition" and not partition_ok(cfg):
                    continue
                for how, arg in (("dict", dict(pars)), ("vector", vec)):
                    got = pta.get_lnlikelihood(arg, phiinv_method=method)
                    nev += 1
                    if not np.isfinite(got) or abs(got - expected) > 1e-6 * (abs(expected) + 10.0):
                        raise engine.Violation(
                            "log likelihood %r (%s, %s, %s, point %d), dense reference %r"
                            % (float(got), cls.__name__, method, how, variant, expected)
                        )
            outs.append(engine.outcome_hash(expected))
            sample = {"lnlikelihood": expected, "parameters": len(vec)}
    return {"states": 2, "transitions": nev, "evaluations": nev, "traces": nev, "outcomes": outs, "sample": sample}


def partition_ok(cfg):
    # documented limitation: no dense cross terms with method="partition"
    return cfg["gw"] != "dense"
