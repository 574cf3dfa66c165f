"""C09: parameter names, vectors and constants line up."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["two pulsars, two backends; uniform priors (other priors: C10, C11)"]
BOUNDS = {
    "quick": "a model of 8 signals x all assignments of parameter kinds (free, shared instance, constant, constant set later, "
    "plain value) that differ from all-free in at most 2 of 11 parameters, vector sizes 1-3 and 12, 3 naming schemes; "
    "8 input forms (dictionaries, sequences, arrays of several layouts) and 3 of whole numbers, 3 rounds of default parameters through 3 entry points",
    "thorough": "at most 3 deviations",
}

T = 1400.0 * 86400.0
KINDS = ["u", "c", "cs", "v"]
AXES = {
    "efac": KINDS + ["s:any_efac"],
    "log10_t2equad": KINDS,
    "red_A": KINDS + ["s:crn_log10_A", "s:zz_log10_A"],
    "red_gamma": KINDS + ["s:crn_gamma"],
    "rho": ["u", "s:fs_log10_rho"],
    "nrho": [2, 1, 3, 12],
    "gw_A": KINDS + ["s:crn_log10_A"],
    "gw_gamma": KINDS,
    "orf": KINDS,
    "idx": KINDS + ["s:common_idx"],
    "amp": KINDS + ["s:a_amp"],
    "naming": [0, 1, 2],
    "which": [0, 1],
}
BASE = {k: v[0] for k, v in AXES.items()}


def cases(tier, seed):
    cfgs = list(models.deviations(BASE, AXES, 2 if tier == "quick" else 3))
    ret = [{"part": "model", "configs": cfgs[i : i + 12]} for i in range(0, len(cfgs), 12)]
    hyp = [
        {"a": a, "b": b, "order": o}
        for a in ("u", "h1", "h2", "hf", "c")
        for b in ("u", "h1", "h2", "hf", "c")
        for o in (0, 1)
    ]
    ret += [{"part": "hyper", "configs": hyp[i : i + 10]} for i in range(0, len(hyp), 10)]
    ret.append({"part": "container"})
    return ret


_P = {}


def pulsars(seed):
    if seed not in _P:
        _P[seed] = [
            psrs.make_psr(psrs.spec(layout="AB|A|BA|B|AA", seed=3), seed),
            psrs.make_psr(psrs.spec(name="B1855+09", pos=1, layout="A|BB|B|AB|B", seed=4), seed),
        ]
    return _P[seed]


def comps(c):
    nm = [("", "red_noise", "gw"), ("meas", "achrom", "zz_gw"), ("m_n", "B1855+09", "A_gw")][c["naming"]]
    g = ["gw", {"T": T, "n": 2, "orf": "par", "name": nm[2],
                "pars": {"log10_A": c["gw_A"], "gamma": c["gw_gamma"], "rho_orf": c["orf"]}}]
    r = ["red", {"T": T, "n": 2, "name": nm[1], "sel": "half" if c["which"] else None,
                 "pars": {"log10_A": c["red_A"], "gamma": c["red_gamma"]}}]
    return [
        ["mn", {"sel": "backend", "eq": 1, "name": nm[0], "pars": {"efac": c["efac"], "log10_t2equad": c["log10_t2equad"]}}],
        ["tneq", {"pars": {"log10_tnequad": "cs"}, "psrs": [1]}],
        ["tm", {}],
        r if c["which"] else g,
        g if c["which"] else r,
        ["red", {"T": T, "n": c["nrho"], "name": "fs", "spec": "free", "pars": {"log10_rho": c["rho"]}, "combine": False}],
        ["red", {"T": T, "n": 1, "name": "chrom", "basis": "chrom", "vidx": 1, "pars": {"idx": c["idx"], "gamma": "v"}}],
        ["wave", {"sel": "backend", "pars": {"amp": c["amp"], "phase": "c"}}],
    ]


def fail(cfg, msg):
    raise engine.Violation("%s: %s" % ({k: v for k, v in cfg.items() if v != BASE.get(k)}, msg))


def expanded(free):
    """[(name, index or None)] in documented order: sorted by name, vectors consecutive."""
    return [(n, i) for n in sorted(free) for i in (range(free[n]) if free[n] else [None])]


def flat_names(free):
    return [n if i is None else "%s_%d" % (n, i) for n, i in expanded(free)]


def flat_values(free, pars):
    return np.array([pars[n] if i is None else np.atleast_1d(pars[n])[i] for n, i in expanded(free)], dtype="d")


def check_names(cfg, obj, free, what):
    names = [p.name for p in obj.params]
    if names != sorted(free):
        fail(cfg, "%s.params is %s, expected %s" % (what, names, sorted(free)))
    if list(obj.param_names) != flat_names(free):
        fail(cfg, "%s.param_names is %s, expected %s" % (what, list(obj.param_names), flat_names(free)))
    sizes = {p.name: p.size for p in obj.params}
    if {k: v or None for k, v in sizes.items()} != {k: v or None for k, v in free.items()}:
        fail(cfg, "%s sizes %s" % (what, sizes))


def run_config(cfg, seed):
    ps = pulsars(seed)
    m = models.Model(comps(cfg), ps)
    pta = m.pta()
    free, const = m.names()
    check_names(cfg, pta, free, "PTA")
    for i, sc in enumerate(pta.pulsarmodels):
        sub = models.Model(comps(cfg), [ps[i]])
        sub.psrs = ps
        f, c = {}, {}
        for k in m.comps:
            if m.applies(k, i):
                k.names(ps[i], f, c)
        check_names(cfg, sc, f, "model of pulsar %d" % i)
        parts = set()
        for sig in sc.signals:
            flat = [n for p in sig.params for n in ([p.name] if not p.size else ["%s_%d" % (p.name, j) for j in range(p.size)])]
            if list(sig.param_names) != flat:
                fail(cfg, "param_names of signal %s is %s, expected %s" % (sig.name, list(sig.param_names), flat))
            parts |= {p.name for p in sig.params}
        if parts != set(f):
            fail(cfg, "the signals of pulsar %d have the parameters %s, expected %s" % (i, sorted(parts), sorted(f)))
        if {p.name for p in sc.constants} != set(c):
            fail(cfg, "constants of pulsar %d: %s, expected %s" % (i, sorted(p.name for p in sc.constants), sorted(c)))
    outs, n = [], 0
    entry = [
        lambda d: pta.set_default_params(d),
        lambda d: [sc.set_default_params(d) for sc in pta.pulsarmodels],
        lambda d: [s.set_default_params(d) for sc in pta.pulsarmodels for s in sc.signals],
    ]
    for rnd in range(3):
        # every round sets all the constants (those created with a value only in the later rounds)
        cpar = models.values(const, 10 + rnd, seed)
        if rnd == 0:
            given = {nm: v for nm, v in cpar.items() if any(is_unset(k, m, ps, nm) for k in m.comps)}
            cpar = dict(given)
        extra = {"unrelated_gamma": 2.0}
        extra.update(models.values(free, 77, seed))  # naming free parameters here must not fix them
        entry[rnd](dict(cpar, **extra))
        check_names(cfg, pta, free, "PTA")
        pars = models.values(free, rnd, seed)
        want = models.lnlike(m.accs(dict(pars, **cpar)))
        vec = flat_values(free, pars)
        mapped = pta.map_params(vec)
        if sorted(mapped) != sorted(free):
            fail(cfg, "mapped names %s" % sorted(mapped))
        for nme in free:
            if np.atleast_1d(mapped[nme]).tolist() != np.atleast_1d(pars[nme]).tolist():
                fail(cfg, "mapped value of %s is %s, expected %s" % (nme, mapped[nme], pars[nme]))
        forms = {"dict": dict(pars), "array": vec.copy(), "list": [float(x) for x in vec], "tuple": tuple(vec.tolist()),
                 "rdict": dict(sorted(pars.items(), reverse=True))}
        wide = np.full(2 * len(vec), 1e3)
        wide[::2] = vec
        forms["strided array"] = wide[::2]
        forms["array reversed twice"] = vec[::-1].copy()[::-1]
        forms["read-only array"] = vec.copy()
        forms["read-only array"].setflags(write=False)
        prior = sum(-(free[x] or 1) * np.log(21 * (hi - lo)) for x in free for lo, hi in [models.DOMAIN[models.kind_of(x)]])
        cube = {x: (models.unit("cube", x, rnd) if not free[x] else
                    np.array([models.unit("cube", x, i, rnd) for i in range(free[x])])) for x in free}
        wantc = np.array([lo - 10 * (hi - lo) + 21 * (hi - lo) * u for u, (x, i) in zip(flat_values(free, cube), expanded(free))
                          for lo, hi in [models.DOMAIN[models.kind_of(x)]]])
        for form, x in forms.items():
            got = pta.get_lnlikelihood(x)
            n += 1
            if abs(got - want) > 1e-6 * (abs(want) + 10):
                fail(cfg, "round %d, %s input: log likelihood %r, expected %r" % (rnd, form, got, want))
            gp = pta.get_lnprior(x)
            if abs(gp - prior) > 1e-9 * abs(prior):
                fail(cfg, "round %d, %s input: log prior %r, expected %r" % (rnd, form, gp, prior))
        if not np.array_equal(forms["array"], vec) or list(forms["dict"]) != list(pars):
            fail(cfg, "round %d: the given parameters were changed" % rnd)
        # values that are whole numbers, as integers
        whole = {x: np.maximum(np.round(v), 1.0) if "efac" in x else np.round(v) for x, v in pars.items()}
        want = models.lnlike(m.accs(dict(whole, **cpar)))
        ints = {x: int(v) if not free[x] else v for x, v in whole.items()}
        wvec = flat_values(free, whole)
        for form, x in {"integers": ints, "integer array": wvec.astype(int), "longdouble array": wvec.astype(np.longdouble)}.items():
            got = pta.get_lnlikelihood(x)
            n += 1
            if not abs(got - want) <= 1e-6 * (abs(want) + 10):
                fail(cfg, "round %d, %s: log likelihood %r, expected %r" % (rnd, form, got, want))
        cv = flat_values(free, cube)
        for form, x in {"dict": cube, "array": cv}.items():
            got = np.asarray(pta.get_hypercube_transform(x))
            if not models.close(got, wantc, 1e-9):
                fail(cfg, "unit cube, %s input: %s, expected %s" % (form, got, wantc))
        # a value outside of the prior of the last parameter
        vec2 = vec.copy()
        vec2[-1] = 1e9
        if pta.get_lnprior(vec2) != -np.inf:
            fail(cfg, "log prior outside of the range of %s: %r" % (flat_names(free)[-1], pta.get_lnprior(vec2)))
        outs.append(engine.outcome_hash(want))
    return outs, n


def is_unset(comp, m, ps, name):
    """Is this constant created without a value?"""
    for kw, k in comp.p.kinds.items():
        if k != "cs":
            continue
        for i, p in enumerate(ps):
            if m.applies(comp, i):
                c = {}
                f = {}
                comp.names(p, f, c)
                if name in c and name.endswith(kw):
                    return True
    return False


# ------------------------------------------------------------- hyperparameters


def run_hyper(cfg, seed):
    """Parameters with free hyperparameters (classes or shared instances), functions of them, constants."""
    from enterprise.signals import gp_signals, gp_priors, parameter, white_signals

    psr = pulsars(seed)[0]
    shared = parameter.Uniform(1, 3)("hyp_top")

    @parameter.function
    def twice(x):
        return 2 * x

    def make(kind, own):
        if kind == "u":
            return parameter.Uniform(0.0, 8.0), {own: None}, {}
        if kind == "c":
            return parameter.Constant(3.0), {}, {own: None}
        if kind == "h1":  # normal around a shared hyperparameter instance
            return parameter.Normal(shared, 2.0), {own: None, "hyp_top": None}, {}
        if kind == "h2":  # normal with two hyperparameter classes: named after the parameter
            return (parameter.Normal(parameter.Uniform(1, 3), parameter.Uniform(1, 2)),
                    {own: None, own + "_mu": None, own + "_sigma": None}, {})
        if kind == "hf":  # uniform up to a function of the shared hyperparameter
            return parameter.Uniform(0.0, twice(x=shared)), {own: None, "hyp_top": None}, {}
        raise ValueError(kind)

    ef, fe, ce = make(cfg["a"], psr.name + "_efac")
    ga, fg, cg = make(cfg["b"], psr.name + "_red_noise_gamma")
    sigs = [
        white_signals.MeasurementNoise(efac=ef),
        gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=ga), components=2),
    ]
    s = sigs[0] + sigs[1] if cfg["order"] == 0 else sigs[1] + sigs[0]
    from enterprise.signals import signal_base

    pta = signal_base.PTA([s(psr)])
    free = dict(fe, **fg)
    free[psr.name + "_red_noise_log10_A"] = None
    names = [p.name for p in pta.params]
    if names != sorted(free):
        fail(cfg, "PTA.params is %s, expected %s" % (names, sorted(free)))
    if list(pta.param_names) != sorted(free):
        fail(cfg, "PTA.param_names is %s" % list(pta.param_names))

    def logp(kind, own, p):
        x = p.get(own)
        if kind == "u":
            return -np.log(8.0)
        if kind == "c":
            return 0.0
        if kind == "h1":
            return -0.5 * (x - p["hyp_top"]) ** 2 / 4.0 - 0.5 * np.log(2 * np.pi * 4.0)
        if kind == "h2":
            mu, sg = p[own + "_mu"], p[own + "_sigma"]
            return -0.5 * (x - mu) ** 2 / sg**2 - 0.5 * np.log(2 * np.pi * sg**2) - np.log(2.0) - np.log(1.0)
        if kind == "hf":
            return -np.log(2 * p["hyp_top"])

    outs, n = [], 0
    for var in range(3):
        p = {}
        for i, x in enumerate(sorted(free)):
            u = models.unit(x, var, seed)
            if x.endswith("log10_A"):
                p[x] = -13 + u
            elif x.endswith("_mu") or x == "hyp_top":
                p[x] = 1 + 2 * u
            elif x.endswith("_sigma"):
                p[x] = 1 + u
            else:
                p[x] = 0.6 + u
        want = -np.log(7.0) + logp(cfg["a"], psr.name + "_efac", p) + logp(cfg["b"], psr.name + "_red_noise_gamma", p)
        if "hyp_top" in free:
            want += -np.log(2.0)
        vec = np.array([p[x] for x in sorted(free)])
        m = models.Model([["mn", {"pars": {"efac": "u"}}], ["red", {"n": 2}]], [psr])
        full = dict(p)
        if cfg["a"] == "c":
            full[psr.name + "_efac"] = 3.0
        if cfg["b"] == "c":
            full[psr.name + "_red_noise_gamma"] = 3.0
        wl = models.lnlike(m.accs(full))
        for x in (p, vec):
            lp, ll = pta.get_lnprior(x), pta.get_lnlikelihood(x)
            n += 2
            if abs(lp - want) > 1e-9 * abs(want):
                fail(cfg, "log prior %r, expected %r (%s input)" % (lp, want, type(x).__name__))
            if abs(ll - wl) > 1e-7 * abs(wl):
                fail(cfg, "log likelihood %r, expected %r (%s input)" % (ll, wl, type(x).__name__))
        # unit cube: hyperparameters take part with the values they are given
        outs.append(engine.outcome_hash([want, wl]))
    return outs, n


def run_container(seed):
    """Models put together with +, looked up by name, in any order."""
    from enterprise.signals import signal_base

    ps = pulsars(seed)
    c = [["mn", {"sel": "backend"}], ["red", {"n": 2, "T": T}], ["red", {"n": 1, "T": T, "name": "second"}]]
    n = 0
    outs = []
    for order in itertools.permutations(range(3)):
        m = models.Model(c, ps)
        scs = [m.metamodel(i, list(order))(p) for i, p in enumerate(ps)]
        p0 = signal_base.PTA(scs)
        forms = [scs[0] + scs[1], signal_base.PTA([scs[0]]) + scs[1], signal_base.PTA(scs[0]) + signal_base.PTA([scs[1]])]
        free, _ = m.names()
        pars = models.values(free, 0, seed)
        want = models.lnlike(m.accs(pars))
        for p in [p0] + forms:
            check_names({"container": list(order)}, p, free, "PTA")
            got = p.get_lnlikelihood(pars)
            n += 1
            if abs(got - want) > 1e-7 * abs(want) or list(p.pulsars) != [x.name for x in ps] or len(p) != 2:
                fail({"container": list(order)}, "combined models: %r, expected %r" % (got, want))
            if list(p.keys()) != [x.name for x in ps] or p[ps[1].name] is not p[1]:
                fail({"container": list(order)}, "pulsar lookup")
            for x in ps:
                for sig in ("red_noise", "second", "measurement_noise"):
                    s = p.get_signal("%s_%s" % (x.name, sig))
                    if s.name != "%s_%s" % (x.name, sig) or p[x.name][sig] is not s:
                        fail({"container": list(order)}, "signal lookup %s" % sig)
            for sc, x in zip(p.pulsarmodels, ps):
                sigs = list(sc.signals)
                if (len(sc) != 3 or list(sc.values()) != sigs or list(sc.keys()) != [s.signal_id for s in sigs]
                        or [k for k, v in sc.items()] != list(sc.keys()) or [v for k, v in sc.items()] != sigs
                        or any(sc[i] is not s or sc[s.signal_id] is not s for i, s in enumerate(sigs))):
                    fail({"container": list(order)}, "lookup of signals in the model of a pulsar")
                try:
                    sc["absent"]
                    fail({"container": list(order)}, "lookup of an absent signal succeeds")
                except KeyError:
                    pass
            txt = p.summary(include_params=bool(n % 2))
            if "Number of pulsars: 2" not in txt:
                fail({"container": list(order)}, "summary does not list 2 pulsars")
            for sc in p.pulsarmodels:
                for s in sc.signals:
                    row = [ln for ln in txt.split("\n") if ln.startswith(s.name + " ")]
                    if len(row) != 1 or row[0].split()[-1] != str(len(s.param_names)):
                        fail({"container": list(order)}, "summary of %s: %s" % (s.name, row))
            if "Varying params: %d" % len(flat_names(free)) not in txt:
                fail({"container": list(order)}, "summary does not list %d varying parameters" % len(free))
        # models put together keep the likelihood of the first one
        dense = signal_base.PTA([scs[0]], lnlikelihood=signal_base.LogLikelihoodDenseCholesky)
        mine = signal_base.PTA([scs[0]], lnlikelihood=Reversed)
        for q, w in ((dense + scs[1], want), (mine + scs[1], -want), (mine + signal_base.PTA([scs[1]]), -want)):
            got = q.get_lnlikelihood(pars)
            n += 1
            if abs(got - w) > 1e-7 * abs(w):
                fail({"container": list(order)}, "combined models with a likelihood class: %r, expected %r" % (got, w))
        outs.append(engine.outcome_hash(want))
    return outs, n + run_lookup(seed)


def run_lookup(seed):
    """Names that begin like other names: each finds its own, and absent names nothing."""
    from enterprise.signals import gp_priors, gp_signals, parameter, signal_base, white_signals

    names, n = ["J0001+0001", "J0001+00", "J0001+0001A"], 0
    ps = [psrs.make_psr(psrs.spec(name=k, pos=i, seed=i), seed) for i, k in enumerate(names)]
    pl = gp_priors.powerlaw(log10_A=parameter.Uniform(-16, -12), gamma=parameter.Uniform(0, 7))
    ids = ["red", "red_2", "re"]
    for order in itertools.permutations(range(3)):
        cls = white_signals.MeasurementNoise()
        for i in order:
            cls = cls + gp_signals.FourierBasisGP(pl, components=1, name=ids[i])
        pta = signal_base.PTA([cls(ps[i]) for i in order])
        for k in names:
            n += 1
            if pta[k].psrname != k:
                fail({"lookup": list(order)}, "the model of pulsar %s is that of %s" % (k, pta[k].psrname))
            for s in ids:
                if pta[k][s].signal_id != s or pta[k][s].name != k + "_" + s or pta.get_signal(k + "_" + s) is not pta[k][s]:
                    fail({"lookup": list(order)}, "signal %s of pulsar %s is %s" % (s, k, pta[k][s].name))
            want = sorted([k + "_efac"] + [k + "_%s_%s" % (s, q) for s in ids for q in ("log10_A", "gamma")])
            if sorted(pta[k].param_names) != want:
                fail({"lookup": list(order)}, "parameters %s, expected %s" % (pta[k].param_names, want))
        for fn in (lambda: pta["J0001"], lambda: pta["J0001+0001AB"], lambda: pta[names[0]]["r"], lambda: pta[names[0]]["red_"]):
            try:
                got = fn()
            except KeyError:
                continue
            fail({"lookup": list(order)}, "lookup of an absent name gives %r" % (got,))
    return n


class Reversed(object):
    """A likelihood class of the user."""

    def __init__(self, pta):
        from enterprise.signals import signal_base

        self.log = signal_base.LogLikelihood(pta)

    def __call__(self, xs, **kw):
        return -self.log(xs, **kw)


def run_case(desc, seed):
    outs, n = set(), 0
    if desc["part"] == "container":
        o, n = run_container(seed)
        return {"states": 6, "transitions": n, "evaluations": n, "traces": 6, "outcomes": sorted(set(o)), "sample": "container"}
    fn = run_config if desc["part"] == "model" else run_hyper
    for cfg in desc["configs"]:
        o, k = fn(cfg, seed)
        outs.update(o)
        n += k
    return {"states": len(desc["configs"]), "transitions": n, "evaluations": n, "traces": len(desc["configs"]),
            "outcomes": sorted(outs), "sample": desc["configs"][0]}
