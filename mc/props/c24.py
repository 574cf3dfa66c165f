"""C24: models do not influence each other."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "parameter objects that the user shares between models on purpose keep their values (constants are set only where each model owns its own)",
    "operations are atomic (one thread)",
]
BOUNDS = {
    "quick": "15 scenarios of three models sharing classes, parameters, waveforms, selections, pulsars or noise dictionaries: all interleavings of "
    "two models with 4 operations each (build, evaluate, set constants, evaluate elsewhere): 70 per pair of models, and of three models with 2 operations each (90)",
    "thorough": "two models with 6 operations each (924 per pair), three models with 3 (1680)",
}

DAY = 86400.0
DMX = {"DMX_0001": (53000.0, 54100.0), "DMX_0002": (54100.0, 54400.0), "DMX_0003": (54400.0, 56500.0)}
LAYS = [("AB|A|BA|B", 0.0), ("A|BB|A|AB", 3.0), ("BA|C|CB|A|B", 0.0), ("AA|BB|A", 0.0)]


class World(object):
    """Everything the models of one run may share; built on demand."""

    def __init__(self, seed):
        self.seed, self.pool, self.prints = seed, {}, {}

    def psr(self, i):
        if ("psr", i) not in self.pool:
            lay, _ = LAYS[i % 4]
            sp = psrs.spec(name="J000%d+000%d" % (i + 1, i + 1), layout=lay, pos=i % 4, order="mix" if i % 2 else "sorted", tm=["off", "F0", "F1"] + (sorted(DMX) if i >= 4 else []),
                           sort=i != 2, t0=53005.37 + 210.0 * i, span=1100.0 + 130.0 * i, **({"wideband": 1, "dmx": DMX} if i >= 4 else {}))
            p = psrs.make_psr(sp, self.seed + i)
            self.pool["psr", i] = p
            self.prints[i] = fingerprint(p)
        return self.pool["psr", i]

    def get(self, key, make):
        if key not in self.pool:
            self.pool[key] = make()
        return self.pool[key]

    def check_pulsars(self, what):
        for i, fp in self.prints.items():
            now = fingerprint(self.pool["psr", i])
            for k in fp:
                if k not in now or now[k] != fp[k]:
                    raise engine.Violation("the pulsar's %s was modified (%s)" % (k, what))


def fingerprint(p):
    ret = {}
    for a in ("toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "pos", "pos_t", "planetssb", "sunssb", "backend_flags", "telescope"):
        x = np.asarray(getattr(p, a))
        ret[a] = (str(x.dtype), x.shape, x.tobytes())
    for k, v in p.flags.items():
        ret["flag " + k] = np.asarray(v).tobytes()
    for a in ("name", "theta", "phi", "pdist", "fitpars"):
        ret[a] = repr(getattr(p, a))
    ret["public attributes"] = repr(sorted(x for x in vars(p) if not x.startswith("_")))
    return ret


# ---------------------------------------------------------------- scenarios


def scenario(name, w):
    """Three functions that build a PTA, with the constants each model uses (or None)."""
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import gp_bases, gp_priors, gp_signals, parameter, selections, signal_base, utils
    from enterprise.signals import white_signals as ws
    from enterprise.signals.parameter import function
    from enterprise.signals.selections import Selection

    U = parameter.Uniform
    T = 1500 * DAY
    PTA = signal_base.PTA

    def coll(*sigs):
        s = sigs[0]
        for x in sigs[1:]:
            s = s + x
        return s if len(sigs) > 1 else signal_base.SignalCollection([s])

    def pl(tag=""):
        return gp_priors.powerlaw(log10_A=U(-14, -12), gamma=U(1, 5))

    def mn(sel=selections.by_backend):
        return ws.MeasurementNoise(efac=U(0.5, 2), log10_t2equad=U(-8, -5), selection=Selection(sel))

    def tm():
        return gp_signals.TimingModel()

    def on(cls, *ip):
        return lambda w: PTA([cls()(w.psr(i)) for i in ip])

    if name == "class":
        c = lambda: w.get("c", lambda: coll(mn(), gp_signals.FourierBasisGP(pl(), components=2), tm()))  # noqa: E731
        return [(on(c, 0), None), (on(c, 1), None), (on(c, 0, 1), None)]
    if name == "constants":
        C = parameter.Constant

        def make():
            return coll(
                ws.MeasurementNoise(efac=C(), selection=Selection(selections.by_backend)),
                ws.EcorrKernelNoise(log10_ecorr=C(), selection=Selection(selections.by_backend)),
                gp_signals.BasisGP(gp_priors.powerlaw(log10_A=C(), gamma=C(3.3)), gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=C()), name="chrom"),
                gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=C(), gamma=U(1, 5)), components=2, Tspan=T),
                tm(),
            )

        c = lambda: w.get("c", make)  # noqa: E731
        return [(on(c, 0), 1), (on(c, 0), 2), (on(c, 0, 3), 3)]
    if name == "instance":
        g = lambda: w.get("g", lambda: U(1, 5)("shared_gamma"))  # noqa: E731
        A = lambda: w.get("A", lambda: U(-14, -12)("shared_log10_A"))  # noqa: E731
        one = lambda: coll(mn(), gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=U(-14, -12), gamma=g()), components=2, Tspan=T), tm())  # noqa: E731
        two = lambda: coll(  # noqa: E731
            gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=A(), gamma=g()), components=2, Tspan=T),
            gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=A(), gamma=g()), utils.hd_orf(), components=2, Tspan=T, name="gw"), mn(),
        )
        return [(on(one, 0, 1), None), (on(lambda: w.get("two", two), 0, 1), None), (on(lambda: w.get("two", two), 1, 2), None)]
    if name == "waveform":
        p = lambda: w.get("p", pl)  # noqa: E731

        def make_wave():
            @function
            def wave(toas, freqs, amp=1e-6, phase=0.0):
                return amp * np.sin(2 * np.pi * (toas - toas[0]) / (231.7 * DAY) + phase) * (1000.0 / freqs)

            return wave(amp=U(-2e-6, 2e-6), phase=U(0, 6))

        wv = lambda: w.get("wave", make_wave)  # noqa: E731
        one = lambda: coll(gp_signals.FourierBasisGP(p(), components=2, Tspan=T, name="a"), ds.Deterministic(wv(), name="w1"), mn())  # noqa: E731
        two = lambda: coll(  # noqa: E731
            gp_signals.BasisGP(p(), gp_bases.createfourierdesignmatrix_dm(nmodes=2, Tspan=T), name="dm"),
            ds.Deterministic(wv(), name="w2", selection=Selection(selections.by_backend)), mn(),
        )
        three = lambda: coll(gp_signals.FourierBasisCommonGP(p(), utils.hd_orf(), components=2, Tspan=T, name="gw"), ds.Deterministic(wv(), name="w1"), mn())  # noqa: E731
        return [(on(one, 0, 1), None), (on(two, 0, 1), None), (on(three, 0, 1), None)]
    if name == "selection":
        sels = {
            "cd": lambda: Selection(selections.custom_backends_dict({"B": None, "fe": ["L-w", "Rcvr"]})),
            "fb": lambda: Selection(selections.by_freq_band()),
            "be": lambda: Selection(selections.by_backend),
            "cb": lambda: Selection(selections.custom_backends(["GUPPI", "PUPPI"])),
        }
        S = lambda k: w.get(k, sels[k])  # noqa: E731
        one = lambda: coll(ws.MeasurementNoise(efac=U(0.5, 2), selection=S("be")), ws.TNEquadNoise(log10_tnequad=U(-8, -5), selection=S("cd")), gp_signals.FourierBasisGP(pl(), components=2, Tspan=T, selection=S("fb")))  # noqa: E731
        two = lambda: coll(ws.MeasurementNoise(efac=U(0.5, 2), selection=S("be")), ws.EcorrKernelNoise(log10_ecorr=U(-8, -5), selection=S("be")), gp_signals.FourierBasisGP(pl(), components=2, Tspan=T, selection=S("cb"), name="x"))  # noqa: E731
        shared = lambda: w.get("one", one)  # noqa: E731
        return [(on(shared, 0), None), (on(two, 1, 2), None), (on(shared, 2, 1), None)]
    if name == "common":
        c = lambda: w.get("c", lambda: coll(mn(selections.no_selection), gp_signals.FourierBasisCommonGP(pl(), utils.hd_orf(), components=2, Tspan=T, name="gw"), tm()))  # noqa: E731
        return [(on(c, 0, 1), None), (on(c, 1, 2), None), (on(c, 0, 2, 1), None)]
    if name == "common2":
        hd = lambda: w.get("hd", lambda: utils.hd_orf())  # noqa: E731
        one = lambda: coll(mn(), gp_signals.FourierBasisCommonGP(pl(), hd(), components=2, Tspan=T, name="gw"))  # noqa: E731
        two = lambda: coll(mn(), gp_signals.BasisCommonGP(gp_priors.powerlaw(log10_A=U(-14, -12), gamma=U(1, 5)), gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=U(1, 5)), hd(), name="cc"))  # noqa: E731
        three = lambda: coll(mn(), gp_signals.FourierBasisCommonGP(pl(), hd(), components=2, Tspan=2 * T, name="gw"))  # noqa: E731
        return [(on(one, 0, 1), None), (on(two, 1, 0), None), (on(three, 0, 1), None)]
    if name == "timing":
        one = lambda: coll(mn(), gp_signals.TimingModel(normed=True), gp_signals.EcorrBasisModel(log10_ecorr=U(-8, -5), selection=Selection(selections.by_backend)))  # noqa: E731
        two = lambda: coll(mn(), gp_signals.TimingModel(use_svd=True, normed=True), gp_signals.FourierBasisGP(pl(), components=2))  # noqa: E731
        three = lambda: coll(mn(), gp_signals.MarginalizingTimingModel(), gp_signals.FourierBasisGP(pl(), components=2))  # noqa: E731
        return [(on(one, 3, 2), None), (on(two, 2, 3), None), (on(three, 3, 2), None)]
    if name == "coefficients":
        c = lambda: w.get("c", lambda: coll(mn(), gp_signals.FourierBasisGP(pl(), components=2, Tspan=T, coefficients=True), gp_signals.FourierBasisGP(pl(), components=1, Tspan=T, name="m")))  # noqa: E731
        d = lambda: coll(mn(), gp_signals.FourierBasisCommonGP(pl(), utils.hd_orf(), components=1, Tspan=T, coefficients=True, name="gw"), gp_signals.FourierBasisGP(pl(), components=2, Tspan=T))  # noqa: E731
        return [(on(c, 0), None), (on(c, 1, 0), None), (on(d, 0, 1), None)]
    if name == "ephem":
        e = lambda: w.get("e", lambda: coll(mn(), ds.PhysicalEphemerisSignal(use_epoch_toas=True, sat_orb_elements=True)))  # noqa: E731
        f = lambda: coll(mn(), ds.PhysicalEphemerisSignal(use_epoch_toas=False, jup_orb_elements=False), gp_signals.FourierBasisGP(pl(), components=1, Tspan=T))  # noqa: E731
        return [(on(e, 0), None), (on(e, 1, 0), None), (on(f, 0), None)]
    if name == "wideband":
        C = parameter.Constant
        W = lambda: w.get("W", lambda: coll(mn(), gp_signals.WidebandTimingModel(dmefac=C(), log10_dmequad=C(), dmjump=C(), selection=Selection(selections.by_backend), dmjump_selection=Selection(selections.by_frontend)), gp_signals.FourierBasisGP(pl(), components=1, Tspan=T)))  # noqa: E731
        V = lambda: coll(mn(), gp_signals.WidebandTimingModel(dmefac=U(0.5, 2), log10_dmequad=U(-5, -3), dmjump=None))  # noqa: E731
        return [(on(W, 4), 1), (on(W, 4, 5), 2), (on(V, 4), None)]
    if name == "compose":
        s1 = lambda: w.get("s1", lambda: mn())  # noqa: E731
        s2 = lambda: w.get("s2", lambda: gp_signals.FourierBasisGP(pl(), components=2, Tspan=T))  # noqa: E731
        s12 = lambda: w.get("s12", lambda: s1() + s2())  # noqa: E731
        s123 = lambda: s12() + w.get("tm", tm) + gp_signals.FourierBasisGP(pl(), components=1, Tspan=T, name="third")  # noqa: E731
        return [(on(lambda: coll(s1()), 0, 1), None), (on(s12, 1), None), (on(s123, 1, 0), None)]
    if name == "sharedcols":
        # processes with equal columns share one block per model
        a = lambda: w.get("a", lambda: gp_signals.FourierBasisGP(pl(), components=3, Tspan=T, name="a"))  # noqa: E731
        b = lambda: w.get("b", lambda: gp_signals.FourierBasisGP(pl(), components=2, Tspan=T, name="b"))  # noqa: E731
        g = lambda: w.get("g", lambda: gp_signals.FourierBasisCommonGP(pl(), utils.hd_orf(), components=2, Tspan=T, name="gw"))  # noqa: E731
        m = lambda: w.get("m", mn)  # noqa: E731
        return [(on(lambda: coll(m(), a(), b()), 0, 1), None), (on(lambda: coll(g(), a(), m()), 0, 1), None), (on(lambda: coll(b(), m()), 1), None)]
    if name == "priors":
        n = lambda: w.get("n", lambda: parameter.TruncNormal(mu=-6.5, sigma=0.3, pmin=-7.5, pmax=-5.5))  # noqa: E731
        h = lambda: w.get("h", lambda: parameter.Normal(mu=U(-7, -6)("mean_log10_t2equad"), sigma=0.4))  # noqa: E731
        l = lambda: w.get("l", lambda: parameter.LinearExp(-14, -12))  # noqa: E731,E741
        one = lambda: coll(ws.MeasurementNoise(efac=parameter.Normal(1.0, 0.2), log10_t2equad=n(), selection=Selection(selections.by_backend)))  # noqa: E731
        two = lambda: coll(ws.MeasurementNoise(efac=parameter.Normal(1.0, 0.2), log10_t2equad=h()), gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=l(), gamma=U(1, 5)), components=2, Tspan=T))  # noqa: E731
        return [(on(one, 0), None), (on(two, 1, 0), None), (on(lambda: w.get("two", two), 0), None)]
    if name == "svd":
        c = lambda: w.get("c", lambda: coll(mn(), gp_signals.TimingModel(normed=False), gp_signals.BasisGP(gp_priors.free_spectrum(log10_rho=U(-8, -5, size=2)), gp_bases.createfourierdesignmatrix_env(nmodes=2, Tspan=T, log10_Q=2.5, t0=53600 * DAY, log10_Amp=-1), name="env")))  # noqa: E731
        return [(on(c, 0), None), (on(c, 2), None), (on(c, 2, 0), None)]
    raise ValueError(name)


SCENARIOS = ["class", "constants", "instance", "waveform", "selection", "common", "common2", "timing", "coefficients", "ephem", "wideband",
             "compose", "sharedcols", "priors", "svd"]
OPS4 = ["build", "eval 0", "const 1", "eval 1"]
OPS6 = ["build", "eval 0", "const 1", "eval 1", "const 0", "eval 0"]


def merges(lists):
    lists = [x for x in lists if x]
    if not lists:
        yield []
        return
    for i, x in enumerate(lists):
        for rest in merges(lists[:i] + [x[1:]] + lists[i + 1 :]):
            yield [x[0]] + rest


def programs(tier):
    """Lists of (model, operation) lists to be merged."""
    two = OPS4 if tier == "quick" else OPS6
    for pair in ((0, 1), (0, 2), (1, 2)):
        yield [[(m, o) for o in two] for m in pair]
    three = ["build", "eval 1"] if tier == "quick" else ["build", "eval 0", "eval 1"]
    yield [[(m, o) for o in three] for m in range(3)]


def cases(tier, seed):
    ret = [{"known": "tspan-none"}, {"known": "common-constants"}]
    parts = 1 if tier == "quick" else 6
    for s in SCENARIOS:
        for k in range(4):
            ret += [{"scenario": s, "program": k, "part": [p, parts], "tier": tier} for p in range(parts)]
    return ret


# ---------------------------------------------------------------- running


def unique_params(pta):
    return {p.name: p.size for p in pta.params}


def observe(pta, v, seed):
    names = unique_params(pta)
    params = models.values(names, v, seed)
    keep = {k: np.copy(x) for k, x in params.items()}
    ret = {"names": list(pta.param_names), "params": repr(pta.params)}
    ret["lnl"] = float(pta.get_lnlikelihood(params))
    ret["prior"] = float(pta.get_lnprior(params)) if not any("coefficients" in n for n in names) else 0.0
    phi = pta.get_phi(params)
    ret["phi"] = [np.array(x) for x in phi if x is not None] if isinstance(phi, list) else np.array(phi)
    ret["residuals"] = [np.array(x) for x in pta.get_residuals()]
    for k in ("delay", "basis"):
        ret[k] = [np.array(x) for x in getattr(pta, "get_" + k)(params) if x is not None]
    ret["ndiag"] = []
    for N, r in zip(pta.get_ndiag(params), ret["residuals"]):
        x = np.linspace(0.0, 1.0, len(r)) ** 2
        ret["ndiag"].append(np.array(N.solve(x, left_array=x)))
    for k, x in params.items():
        if not np.array_equal(x, keep[k]):
            raise engine.Violation("the parameter dictionary was modified at %s" % k)
    return ret


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return a.size == 0 or bool(np.all(np.abs(a - b) <= 1e-9 * np.max(np.abs(b)) + 1e-300))


def noise_dict(which, v, seed):
    """One dictionary of constants for all the names that any model may use."""
    ret = {}
    for i in range(6):
        nm = "J000%d+000%d" % (i + 1, i + 1)
        for be in ("L-wide_PUPPI", "430_PUPPI", "Rcvr1_2_GUPPI", "Rcvr_800_GUPPI", "L-wide_ASP", "L-wide", "430", "Rcvr1_2", "Rcvr_800", "S-wide", "S-wide_PUPPI"):
            for k in ("efac", "log10_ecorr", "dmefac", "log10_dmequad", "dmjump"):
                ret["%s_%s_%s" % (nm, be, k)] = models.value("%s_%s_%s" % (nm, be, k), None, (which, v), seed)
        for k in ("red_noise_log10_A", "chrom_log10_A", "chrom_gamma", "chrom_idx"):
            ret["%s_%s" % (nm, k)] = models.value("%s_%s" % (nm, k), None, (which, v), seed)
    return ret


def all_flags(w, nd, which, v, seed):
    """Names from the flags of the pulsars themselves."""
    for key, p in list(w.pool.items()):
        if isinstance(key, tuple) and key[0] == "psr":
            for val in set(str(x) for x in p.backend_flags) | set(str(x) for x in p.flags["fe"]):
                for k in ("efac", "log10_ecorr", "dmefac", "log10_dmequad", "dmjump"):
                    n = "%s_%s_%s" % (p.name, val, k)
                    nd[n] = models.value(n, None, (which, v), seed)
    return nd


def execute(name, seed, steps, ref=None):
    """Run the steps in one world. Returns the observations of every (model, index); compares with ref."""
    w = World(seed)
    models_ = scenario(name, w)
    ptas, out, count = {}, {}, {}
    done = []
    for m, op in steps:
        done.append("%s of model %d" % (op, m))
        build, const = models_[m]
        k = count.get(m, 0)
        count[m] = k + 1
        if op == "build":
            ptas[m] = build(w)
            if const is not None:
                nd = all_flags(w, noise_dict(const, 0, seed), const, 0, seed)
                copy = dict(nd)
                ptas[m].set_default_params(nd)
                if nd != copy:
                    raise engine.Violation("the noise dictionary was modified (%s)" % name)
        elif op.startswith("const"):
            if const is not None:
                ptas[m].set_default_params(all_flags(w, noise_dict(const, int(op.split()[1]), seed), const, int(op.split()[1]), seed))
        else:
            got = observe(ptas[m], int(op.split()[1]), seed)
            out[m, k] = got
            if ref is not None:
                for q in got:
                    if not same(got[q], ref[m, k][q]):
                        raise engine.Violation("%s of model %d differs from the same model on its own: %s, expected %s (scenario %s, after %s)"
                                               % (q, m, str(got[q])[:80], str(ref[m, k][q])[:80], name, ", ".join(done)))
        w.check_pulsars("scenario %s, after %s" % (name, ", ".join(done)))
    return out


def run_scenario(desc, seed):
    name = desc["scenario"]
    lists = list(programs(desc["tier"]))[desc["program"]]
    ref = {}
    for x in lists:
        ref.update(execute(name, seed, x))
    for r in ref.values():
        if not np.isfinite(r["lnl"]):
            raise engine.Violation("likelihood of the isolated model is %r (%s)" % (r["lnl"], name))
    k, parts = desc["part"]
    n = steps = 0
    for i, seq in enumerate(merges(lists)):
        if i % parts == k:
            execute(name, seed, seq, ref)
            n += 1
            steps += len(seq)
    return {"states": n, "transitions": steps, "evaluations": steps, "traces": n, "outcomes": [engine.outcome_hash([sorted(ref)[0], ref[sorted(ref)[0]]["lnl"]])],
            "sample": {"lnl": [float(r["lnl"]) for r in ref.values()]}}


def run_known(which, seed):
    """Common processes keep their default time span and their constants in the class, for all the pulsars it ever saw."""
    from enterprise.signals import gp_priors, gp_signals, parameter, signal_base, utils
    from enterprise.signals import white_signals as ws

    def make(w, **kw):
        gw = gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=kw.pop("A"), gamma=parameter.Uniform(1, 5)), utils.hd_orf(), components=2, name="gw", **kw)
        return ws.MeasurementNoise(efac=parameter.Uniform(0.5, 2)) + gw

    def run(others):
        w = World(seed)
        if which == "tspan-none":
            cls = make(w, A=parameter.Uniform(-14, -12))
            pta = signal_base.PTA([cls(w.psr(i)) for i in (0, 1)])
            if others:
                signal_base.PTA([cls(w.psr(3))])
        else:
            cls = make(w, A=parameter.Constant(), Tspan=1500 * DAY)
            pta = signal_base.PTA([cls(w.psr(i)) for i in (0, 1)])
            pta.set_default_params({"gw_log10_A": -13.0})
            if others:
                signal_base.PTA([cls(w.psr(3))]).set_default_params({"gw_log10_A": -12.0})
        return observe(pta, 0, seed)

    alone, again, after = run(False), run(False), run(True)
    for q in alone:
        if not same(alone[q], again[q]):
            raise engine.Violation("%s is not reproducible" % q)
    for q in alone:
        if not same(alone[q], after[q]):
            raise engine.Violation("%s of a model changes when its class is used for another pulsar (%s)" % (q, which),
                                   key={"tspan-none": "tspan-none-shared-class", "common-constants": "common-constants-shared-class"}[which])
    return {"states": 3, "transitions": 6, "evaluations": 3, "traces": 3, "outcomes": [which]}


def run_case(desc, seed):
    if "known" in desc:
        return run_known(desc["known"], seed)
    return run_scenario(desc, seed)
