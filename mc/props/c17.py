"""C17: all the forms of the timing model are the same model."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "design matrices of 3-4 generic columns (full rank); residual shifts up to 30 times the residuals",
    "agreement of log likelihoods to 1e-6 relative",
]
BOUNDS = {
    "quick": "9 forms x 8 white-noise models x 8 GP contents x 2 pulsars (sorted/unsorted data) x 2 parameter points (2 GP contents on a pulsar with about 1300 TOAs), residual shifts along "
    "every column and their sum; all proper subsets of excluded columns x 4 forms x 3 noise models; all scalings of 3 columns by 10^-15, 1, 10^15 x 9 forms x 3 noise models; stabilized matrices of every subset of columns",
    "thorough": "same with 4 pulsars, 4 parameter points, two sizes of shifts; scalings out of 10^-8 ... 10^8",
}

T = 1400.0 * 86400.0
PSR = [
    dict(name="J0001+0001", layout="AB|A|BA|B|AA|BB|A", pos=0, seed=1, tm=["off", "F0", "F1"]),
    dict(name="B0002-0002", layout="B|AAB|A|BA|A|AB", pos=1, seed=2, tm=["F0", "off", "PB"], order="mix", sort=False),
    dict(name="J0003+0003", layout="ABAB|B|A|B|A|AA", pos=2, seed=3, tm=["off", "F0", "PB"], order="rev"),
    dict(name="J0004+0004", layout="A|B|A|B|A|B|A|B", pos=3, seed=4, tm=["PB", "F1", "off"]),
    dict(name="J0008+0008", layout=psrs.long_layout(epochs=520), pos=3, seed=5, tm=["PB", "off", "F0"], order="mix", span=2300.0, step=0.05),
]
EXC = dict(name="J0001+0001", layout="AB|A|BA|B|AA|BB|A", pos=0, seed=1, tm=["off", "F0", "F1", "PB"])

NORM = [0.7, 31.0, 2e-2]
FORMS = {
    "raw": {"normed": False},
    "normed": {},
    "custom": {"normed": NORM},
    "svd": {"svd": 1},
    "marg": {"marg": 1},
    "margraw": {"marg": 1, "normed": False},
    "margcustom": {"marg": 1, "normed": NORM},
    "margsvd": {"marg": 1, "svd": 1},
    "margfirst": {"marg": 1},  # the timing model comes first in the sum of signals
}
WHITE = {
    "efac": [["mn", {}]],
    "backend": [["mn", {"sel": "backend", "eq": 1}], ["tneq", {}]],
    "sherman-morrison": [["mn", {}], ["ecorr", {"sel": "backend", "method": "sherman-morrison"}]],
    "fast-sherman-morrison": [["mn", {}], ["ecorr", {"sel": "backend", "method": "fast-sherman-morrison"}]],
    "block": [["mn", {}], ["ecorr", {"method": "block"}]],
    "sparse": [["ecorr", {"sel": "backend", "method": "sparse"}], ["mn", {}]],
    "becorr": [["mn", {}], ["becorr", {"sel": "backend"}]],
    "const": [["mn", {"pars": {"efac": "c"}}]],
}
R = {"T": T, "n": 2}
GP = {
    "none": [],
    "red": [["red", dict(R)]],
    "back": [["red", dict(R, n=1, sel="backend")]],
    "dm": [["red", dict(R)], ["red", dict(R, name="dm", basis="dm", n=1)]],
    "vidx": [["red", dict(R, basis="chrom", vidx=1)], ["wave", {}]],
    "dense": [["se", {"dt": 450.0}]],
    "coeff": [["red", dict(R, coeff=1)], ["red", dict(R, name="r2", T=0.7 * T)]],
    "hd": [["gw", dict(R, orf="hd")], ["red", dict(R, n=3)]],
}


def cases(tier, seed):
    npsr = 2 if tier == "quick" else 4
    ret = []
    for w, g in itertools.product(WHITE, GP):
        for p in range(npsr):
            ret.append({"white": w, "gp": g, "psr": p, "nvar": 2 if tier == "quick" else 4})
        if tier == "thorough" or g in ("none", "dm"):
            ret.append({"white": w, "gp": g, "psr": 4, "nvar": 2})
    cols = len(EXC["tm"])
    subs = [list(s) for k in range(1, cols) for s in itertools.combinations(range(cols), k)]
    for w in ("efac", "block", "becorr"):
        for s in subs:
            ret.append({"exclude": s, "white": w})
        for k in range(len(EXC["tm"]) + 1):
            ret.append({"zero": k, "white": w})
    exps = (-15, 0, 15) if tier == "quick" else (-16, -8, 0, 8, 16)
    for w in ("efac", "sherman-morrison", "becorr"):
        for e in itertools.product(exps, repeat=len(PSR[0]["tm"])):
            ret.append({"scale": list(e), "white": w})
    for k in range(1, 2 ** cols):
        ret.append({"stable": [i for i in range(cols) if k >> i & 1]})
    return ret


def run_stable(cols, seed):
    """Stabilized design matrices: same columns with unit norm, or an orthonormal basis of the same space."""
    from enterprise.signals import utils

    n = 0
    for spec in PSR + [EXC]:
        M = psrs.make_psr(psrs.spec(**spec), seed).Mmat
        if max(cols) >= M.shape[1]:
            continue
        M = np.array(M[:, cols])
        given = M.copy()
        unit = M / np.sqrt(np.sum(M**2, axis=0))
        for fast in (True, False, None):
            got = utils.create_stabletimingdesignmatrix(M, **({} if fast is None else {"fastDesign": fast}))
            n += 1
            if not np.array_equal(M, given):
                raise engine.Violation("stabilizing the design matrix (fast=%s) changes it" % fast)
            if got.shape != M.shape:
                raise engine.Violation("stabilized design matrix (fast=%s): shape %s" % (fast, got.shape))
            if fast is not False:
                ok = models.close(got, unit, 1e-12)
            else:
                Q = np.linalg.qr(unit)[0]
                ok = np.max(np.abs(got @ got.T - Q @ Q.T)) < 1e-6 and np.max(np.abs(got.T @ got - np.eye(len(cols)))) < 1e-10
            if not ok:
                raise engine.Violation("stabilized design matrix (fast=%s) of columns %s is not equivalent" % (fast, cols))
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": ["stable"], "sample": "stable %s" % cols}


def shifted(spec, seed, k, size):
    """The pulsar with residuals shifted along column k (or along all of them)."""
    raw = psrs.seeded_raw(psrs.spec(**spec), seed)
    M = raw["designmatrix"]
    cols = range(M.shape[1]) if k is None else [k]
    for c in cols:
        raw["residuals"] = raw["residuals"] + M[:, c] * (size * (-0.7) ** c / np.max(np.abs(M[:, c])))
    return psrs.from_raw(raw, sort=spec.get("sort", True))


def far(a, b):
    return not abs(a - b) <= 1e-6 * (abs(b) + 10)


def run_case(desc, seed):
    outs, n, m = [], 0, 0
    if "stable" in desc:
        return run_stable(desc["stable"], seed)
    if "exclude" in desc:
        keep = [c for i, c in enumerate(EXC["tm"]) if i not in desc["exclude"]]
        full = psrs.make_psr(psrs.spec(**EXC), seed)
        cut = psrs.make_psr(psrs.spec(**dict(EXC, tm=keep)), seed)
        for form in ("raw", "normed", "svd", "custom"):
            o = dict(FORMS[form], exclude=desc["exclude"])
            o2 = dict(FORMS[form])
            if form == "custom":
                o["normed"] = o2["normed"] = [3.0 + i for i in range(len(keep))]
            mods = [models.Model(WHITE[desc["white"]] + [["tm", x]] + GP["red"], [p]) for x, p in ((o, full), (o2, cut))]
            free, _ = mods[0].names()
            ptas = [md.pta() for md in mods]
            for v in range(2):
                pars = models.values(free, v, seed)
                a, b = [pta.get_lnlikelihood(pars) for pta in ptas]
                want = models.lnlike(mods[1].accs(pars))
                if far(a, b) or far(b, want):
                    raise engine.Violation("%s with columns %s excluded: %r, columns deleted: %r, dense %r"
                                           % (form, desc["exclude"], a, b, want))
                outs.append(engine.outcome_hash(b))
                n += 2
            m += 1
        return {"states": m, "transitions": n, "evaluations": n, "traces": n, "outcomes": outs, "sample": {"lnlike": b}}

    if "scale" in desc:
        # units of the timing-model parameters: only a constant for the forms that do not normalize
        ps = []
        for exps in ([0, 0, 0], desc["scale"]):
            raw = psrs.seeded_raw(psrs.spec(**PSR[0]), seed)
            raw["designmatrix"] = raw["designmatrix"] * 10.0 ** np.array(exps)
            ps.append(psrs.from_raw(raw))
        const = np.log(10.0) * sum(desc["scale"])
        for form, opts in FORMS.items():
            mods = [models.Model(WHITE[desc["white"]] + [["tm", opts]] + GP["red"], [p]) for p in ps]
            free, _ = mods[0].names()
            ptas = [md.pta() for md in mods]
            for v in range(2):
                pars = models.values(free, v, seed)
                a, b = [pta.get_lnlikelihood(pars) for pta in ptas]
                want = a - (const if "raw" in form or "custom" in form else 0)
                if far(b, want):
                    raise engine.Violation("%s with columns scaled by powers %s of 10: %r, expected %r" % (form, desc["scale"], b, want))
                outs.append(engine.outcome_hash(b))
                n += 2
            m += 1
        return {"states": m, "transitions": n, "evaluations": n, "traces": n, "outcomes": outs, "sample": {"lnlike": b}}

    if "zero" in desc:
        # a column of zeros (a parameter without any effect) changes nothing
        tm = list(EXC["tm"])
        tm.insert(desc["zero"], "zero")
        ps = [psrs.make_psr(psrs.spec(**dict(EXC, tm=t)), seed) for t in (tm, EXC["tm"])]
        for form in ("raw", "normed"):
            mods = [models.Model(WHITE[desc["white"]] + [["tm", FORMS[form]]] + GP["red"], [p]) for p in ps]
            free, _ = mods[0].names()
            ptas = [md.pta() for md in mods]
            for v in range(2):
                pars = models.values(free, v, seed)
                a, b = [pta.get_lnlikelihood(pars) for pta in ptas]
                if far(a, b):
                    raise engine.Violation("%s with a column of zeros: %r, without: %r" % (form, a, b))
                outs.append(engine.outcome_hash(b))
                n += 2
            m += 1
        return {"states": m, "transitions": n, "evaluations": n, "traces": n, "outcomes": outs, "sample": {"lnlike": b}}

    which = [desc["psr"], (desc["psr"] + 1) % 4] if desc["gp"] == "hd" else [desc["psr"]]
    specs = [PSR[i] for i in which]
    size = 3e-5
    variants = [[psrs.make_psr(psrs.spec(**s), seed) for s in specs]]
    for k in [0, 1, 2, None]:
        sh = [p for p in variants[0]]
        sh[-1] = shifted(specs[-1], seed, k, size)
        variants.append(sh)
    if desc["nvar"] > 2:
        variants.append([shifted(s, seed, None, 3e-6) for s in specs])
    values = {}
    for form, opts in FORMS.items():
        rest = WHITE[desc["white"]] + GP[desc["gp"]]
        comps = [["tm", opts]] + rest if form == "margfirst" else rest + [["tm", opts]]
        for iv, ps in enumerate(variants):
            model = models.Model(comps, ps)
            free, _ = model.names()
            pta = model.pta()
            for v in range(desc["nvar"] if iv == 0 else 1):
                pars = models.values(free, v, seed)
                got = pta.get_lnlikelihood(pars)
                n += 1
                if iv == 0:
                    want = models.lnlike(model.accs(pars))
                    values[(form, v)] = got
                    if far(got, want):
                        raise engine.Violation("%s: log likelihood %r, dense marginalization %r (%s)" % (form, got, want, desc))
                    outs.append(engine.outcome_hash(want))
                elif far(got, values[(form, v)]):
                    raise engine.Violation("%s: shifting the residuals along the design matrix changes the log likelihood from %r to %r"
                                           % (form, values[(form, v)], got))
            m += 1
        # a parameter-independent constant between the forms
        d = [values[(form, v)] - values[("raw", v)] for v in range(desc["nvar"])]
        if max(d) - min(d) > 1e-5:
            raise engine.Violation("%s differs from the raw form by %s: not a constant" % (form, d))
    return {"states": m, "transitions": n, "evaluations": n, "traces": n, "outcomes": outs, "sample": {"lnlike": got}}
