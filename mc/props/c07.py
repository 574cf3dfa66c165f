"""C07: selections pick exactly the TOAs they name, and restricted signals follow exactly those masks."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["TOAs of distinct epochs except in the ECORR configurations; labels from alphabets of four"]
BOUNDS = {
    "quick": "masks: all 4^n label assignments to n<=4 TOAs (3^5 for n=5, all repeated words of <=3 for n=61 and 1300), all time lattices {0,1,2,4}^n and all frequency "
    "assignments from 9 band edges for n<=3, delivery orders sorted/reversed, each selection object used for every pulsar "
    "forwards and backwards; signals: all 4^4 assignments (and three sets of 32-40 TOAs with up to 16 systems) x 8 selections x 7 restricted signal types x 2 parameter points",
    "thorough": "masks up to n=5 (4^5) and 6 (3^6); signals for all 4^5 assignments",
}

# per label index: different attributes group the TOAs differently
F = ["Rcvr_800_GASP", "ASP-L-wide", "EFF_1400", "X_GUPPI2"]
FE = ["Rcvr_800", "L-wide", "L-wide", "Rcvr"]
B = ["50CM", "20CM", "10CM", "50CM"]
TEL = ["gbt", "ao", "gbt", "pks"]
GRP = ["ASP", "g", "ASP", "h"]
FREQ = [999.0, 1000.0, 1999.9, 3000.0]
EDGES = [0.5, 999.999, 1000.0, 1999.999, 2000.0, 2999.999, 3000.0, 9999.999, 10000.0]


def make(labels, seed, order="sorted", times=None, freqs=None, sort=True):
    n = len(labels)
    raw = psrs.seeded_raw(psrs.spec(layout="|".join("A" * n), tm=["off"], order=order), seed)
    perm = raw["perm"]
    lab = np.array(labels)[perm]
    raw["flags"] = {
        "f": np.array(F)[lab],
        "fe": np.array(FE)[lab],
        "B": np.array(B)[lab],
        "mygrp": np.array(GRP)[lab],
    }
    if times is not None:
        raw["toas"] = 53000.0 + np.array(times, dtype="d")[perm]
        raw["stoas"] = raw["toas"].copy()
    raw["freqs_hz"] = 1e6 * (np.array(FREQ)[lab] if freqs is None else np.array(freqs)[perm])
    raw["telescope"] = np.array(TEL, dtype="S8")[lab]
    return psrs.from_raw(raw, sort=sort), raw


def rows(raw, sort):
    o = np.argsort(raw["toas"], kind="stable") if sort else np.arange(len(raw["toas"]))
    return {
        "f": [str(v) for v in raw["flags"]["f"][o]],
        "fe": [str(v) for v in raw["flags"]["fe"][o]],
        "B": [str(v) for v in raw["flags"]["B"][o]],
        "mygrp": [str(v) for v in raw["flags"]["mygrp"][o]],
        "tel": [v.decode() for v in raw["telescope"][o]],
        "freqs": [float(v) / 1e6 for v in raw["freqs_hz"][o]],
        "toas": [float(v) * 86400.0 for v in raw["toas"][o]],
    }


NG = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]


def by(vals, keep=lambda v: True):
    return {k: [v == k for v in vals] for k in set(vals) if keep(k)}


def anyin(pats):
    return lambda v: any(p in v for p in pats)


def bands(freqs, table, empty=False):
    ret = {k: [lo <= f < hi for f in freqs] for k, (lo, hi) in table.items()}
    return {k: m for k, m in ret.items() if any(m)}


DEFAULT_BANDS = {"Band.1": (0, 1000), "Band.2": (1000, 2000), "Band.3": (2000, 3000), "Band.4": (3000, 10000)}
MYBANDS = {"lo": (0, 1000), "ov": (500, 2000), "edge": (2000, 2000.5), "none": (5, 6)}


def half(toas):
    mid = (max(toas) + min(toas)) / 2
    return {"t1": [t <= mid for t in toas], "t2": [t > mid for t in toas]}


def table():
    """name -> (factory, expected masks)"""
    from enterprise.signals import selections as s

    return {
        "none": (lambda: s.no_selection, lambda r: {"": [True] * len(r["f"])}),
        "half": (lambda: s.cut_half, lambda r: half(r["toas"])),
        "backend": (lambda: s.by_backend, lambda r: by(r["f"])),
        "nanograv": (lambda: s.nanograv_backends, lambda r: by(r["f"], anyin(NG))),
        "frontend": (lambda: s.by_frontend, lambda r: by(r["fe"])),
        "band": (lambda: s.by_band, lambda r: by(r["B"])),
        "telescope": (lambda: s.by_telescope, lambda r: by(r["tel"])),
        "freqband": (lambda: s.by_freq_band(), lambda r: bands(r["freqs"], DEFAULT_BANDS)),
        "mybands": (lambda: s.by_freq_band(bands=dict(MYBANDS)), lambda r: bands(r["freqs"], MYBANDS)),
        "index": (lambda: s.by_index("ix", [0, 2, 7]), lambda r: {"ix": [i in (0, 2, 7) for i in range(len(r["f"]))]}),
        "index1": (lambda: s.by_index("one", 1), lambda r: {"one": [i == 1 for i in range(len(r["f"]))]}),
        "custom": (lambda: s.custom_backends(["EFF", "GUP"]), lambda r: by(r["f"], anyin(["EFF", "GUP"]))),
        "custom1": (lambda: s.custom_backends("ASP"), lambda r: by(r["f"], anyin(["ASP"]))),
        "custom0": (lambda: s.custom_backends(None), lambda r: by(r["f"])),
        "dict_str": (lambda: s.custom_backends_dict("ASP"), lambda r: by(r["f"], anyin(["ASP"]))),
        "dict_list": (lambda: s.custom_backends_dict(["EFF", "GASP"]), lambda r: by(r["f"], anyin(["EFF", "GASP"]))),
        "dict_none": (lambda: s.custom_backends_dict(None), lambda r: {"": [True] * len(r["f"])}),
        "dict_B": (lambda: s.custom_backends_dict({"B": None}), lambda r: by(r["B"])),
        "dict_fe": (lambda: s.custom_backends_dict({"fe": "Rcvr"}), lambda r: by(r["fe"], anyin(["Rcvr"]))),
        "dict_back": (
            lambda: s.custom_backends_dict({"backend": ["EFF", "X_"]}),
            lambda r: by(r["f"], anyin(["EFF", "X_"])),
        ),
        "dict_back0": (lambda: s.custom_backends_dict({"backend": None}), lambda r: by(r["f"])),
        "dict_two": (
            lambda: s.custom_backends_dict({"B": ["50"], "backend": ["ASP"], "mygrp": None}),
            lambda r: dict(list(by(r["B"], anyin(["50"])).items()) + list(by(r["f"], anyin(["ASP"])).items())
                           + list(by(r["mygrp"]).items())),
        ),
    }


SIGSEL = ["backend", "band", "fe", "tel", "half", "freqband", "index", "cdict"]
SIGS = {
    "mn": [["mn", {"eq": 1}]],
    "tneq": [["mn", {}], ["tneq", {}]],
    "ecorr": [["mn", {}], ["ecorr", {"method": "sherman-morrison"}]],
    "becorr": [["mn", {}], ["becorr", {}]],
    "red": [["mn", {}], ["red", {"T": 1e8, "n": 1}]],
    "chrom": [["mn", {}], ["red", {"T": 1e8, "n": 1, "basis": "chrom", "vidx": 1}]],
    "wave": [["mn", {}], ["wave", {}]],
}


def cases(tier, seed):
    ret = []
    sizes = [(2, 4), (3, 4), (4, 4), (5, 3)] if tier == "quick" else [(2, 4), (3, 4), (4, 4), (5, 4), (6, 3)]
    for n, k in sizes:
        labs = list(itertools.product(range(k), repeat=n))
        for i in range(0, len(labs), 64):
            ret.append({"part": "labels", "labels": labs[i : i + 64]})
    words = [w for k in (1, 2, 3) for w in itertools.product(range(4), repeat=k)]  # many TOAs: repeated words
    ret.append({"part": "labels", "labels": [[w[j % len(w)] for j in range(61)] for w in words]})
    few = [(0,), (3, 1), (0, 1, 2, 3), (2, 2, 0), (1, 0, 0, 0, 3)]
    ret.append({"part": "labels", "labels": [[w[(j * j) % len(w)] for j in range(1300)] for w in few]})
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        ts = list(itertools.product([0, 1, 2, 4], repeat=n))
        for i in range(0, len(ts), 64):
            ret.append({"part": "times", "times": ts[i : i + 64]})
        if n == 4 and tier == "quick" or n == 5:
            continue
        fs = list(itertools.product(EDGES, repeat=n))
        for i in range(0, len(fs), 128):
            ret.append({"part": "freqs", "freqs": fs[i : i + 128]})
    lay = ["".join(c) for c in itertools.product("ABCD", repeat=4 if tier == "quick" else 5)]
    for sel in SIGSEL:
        ret.append({"part": "signals", "sel": sel, "letters": ["abcdefghijkl" * 3, "ABCD" * 10, "lkjAbDihCgfeBdca" * 2]})
        for i in range(0, len(lay), 64):
            ret.append({"part": "signals", "sel": sel, "letters": lay[i : i + 64]})
    return ret


def check_masks(name, got, want, what):
    g = {(k.decode() if isinstance(k, bytes) else str(k)): np.asarray(v) for k, v in got.items()}
    if sorted(g) != sorted(want):
        raise engine.Violation("%s on %s: labels %s, expected %s" % (name, what, sorted(g), sorted(want)))
    for k in want:
        if g[k].dtype != bool or g[k].shape != (len(want[k]),) or g[k].tolist() != [bool(x) for x in want[k]]:
            raise engine.Violation("%s[%s] on %s: %s, expected %s" % (name, k, what, g[k].tolist(), want[k]))


def mask_cases(pulsars):
    """Every selection object on all the pulsars, forwards then backwards."""
    from enterprise.signals import parameter
    from enterprise.signals.selections import Selection

    n = 0
    outs = set()
    for name, (factory, expect) in table().items():
        cls = Selection(factory())
        objs = {}
        for idx in list(range(len(pulsars))) + list(range(len(pulsars)))[::-1]:
            psr, r, what = pulsars[idx]
            if idx not in objs:
                objs[idx] = cls(psr)
            want = expect(r)
            check_masks(name, objs[idx].masks, want, what)
            check_masks(name, cls(psr).masks, want, what)
            params, kmasks = objs[idx]("par", parameter.Uniform(0, 1))
            kn = {("%s_par" % k if k else "par"): m for k, m in want.items()}
            check_masks(name + " call", kmasks, kn, what)
            pn = sorted(p.name for p in params.values())
            if pn != sorted("%s_%s" % (psr.name, k) for k in kn) or sorted(map(str, params)) != sorted(kn):
                raise engine.Violation("%s on %s: parameters %s" % (name, what, pn))
            arr = np.arange(1.0, len(r["f"]) + 1)
            _, ma = objs[idx]("par", parameter.Uniform(0, 1), arr=arr)
            for k, m in kn.items():
                if np.asarray(ma[k]).tolist() != (np.array(m) * arr).tolist():
                    raise engine.Violation("%s on %s: masked array of %s" % (name, what, k))
            n += 4
            outs.add(engine.outcome_hash(sorted((k, str(m)) for k, m in want.items())))
    return n, outs


def signal_cases(desc, seed):
    n, outs, st = 0, set(), 0
    for i, letters in enumerate(desc["letters"]):
        # two pulsars share every signal class (and so every selection)
        lay = letters[:2] + "|" + letters[2:] if i % 2 else "|".join(letters)
        p1 = psrs.make_psr(psrs.spec(layout=lay, tm=["off"], order=["sorted", "rev"][i % 2]), seed)
        p2 = psrs.make_psr(psrs.spec(name="J0002+0001", pos=1, layout=letters[::-1], tm=["off"], step=40 * 86400.0), seed + 1)
        for sig, comps in SIGS.items():
            if sig == "ecorr" and desc["sel"] == "cdict":
                continue  # the ECORR kernel needs disjoint masks
            comps = [[k, dict(o)] for k, o in comps]
            comps[-1][1]["sel"] = desc["sel"]
            if sig == "mn" and desc["sel"] in ("index", "freqband"):
                comps.append(["tneq", {}])
            m = models.Model(comps, [p1, p2])
            pta = m.pta()
            free, const = m.names()
            got = sorted(p.name for p in pta.params)
            if got != sorted(free):
                raise engine.Violation("%s by %s on %s: parameters %s, expected %s" % (sig, desc["sel"], letters, got, sorted(free)))
            for var in (0, 1):
                pars = models.values(free, var, seed)
                accs = m.accs(pars)
                for a, nd, dl in zip(accs, pta.get_ndiag(pars), pta.get_delay(pars)):
                    if sig != "ecorr" and not models.close(np.asarray(nd), a.N, 1e-10):
                        raise engine.Violation("%s by %s on %s: variances %s, expected %s" % (sig, desc["sel"], letters, nd, a.N))
                    if not models.close(np.broadcast_to(dl, a.N.shape), a.delay, 1e-9, 1e-18):
                        raise engine.Violation("%s by %s on %s: delay %s, expected %s" % (sig, desc["sel"], letters, dl, a.delay))
                want, have = models.lnlike(accs), pta.get_lnlikelihood(pars)
                if abs(want - have) > 1e-7 * (abs(want) + 10):
                    raise engine.Violation("%s by %s on %s: lnlike %r, expected %r" % (sig, desc["sel"], letters, have, want))
                n += 3
                outs.add(engine.outcome_hash(want))
            st += 1
    return n, outs, st


def run_case(desc, seed):
    if desc["part"] == "signals":
        n, outs, st = signal_cases(desc, seed)
        return {"states": st, "transitions": n, "evaluations": n, "traces": st, "outcomes": sorted(outs),
                "sample": [desc["sel"], desc["letters"][0]]}
    ps = []
    if desc["part"] == "labels":
        for i, lab in enumerate(desc["labels"]):
            order, sort = [("sorted", True), ("rev", True), ("rev", False), ("mix", True)][i % 4]
            psr, raw = make(lab, seed, order=order, sort=sort)
            ps.append((psr, rows(raw, sort), "labels %s %s" % (list(lab), order)))
    elif desc["part"] == "times":
        for i, t in enumerate(desc["times"]):
            psr, raw = make([k % 4 for k in range(len(t))], seed, times=t, sort=bool(i % 2))
            ps.append((psr, rows(raw, bool(i % 2)), "times %s" % (list(t),)))
    else:
        for i, f in enumerate(desc["freqs"]):
            psr, raw = make([0] * len(f), seed, freqs=f, order=["sorted", "rev"][i % 2])
            ps.append((psr, rows(raw, True), "frequencies %s" % (list(f),)))
    n, outs = mask_cases(ps)
    return {"states": len(ps), "transitions": n, "evaluations": n, "traces": len(ps), "outcomes": sorted(outs), "sample": ps[0][2]}
