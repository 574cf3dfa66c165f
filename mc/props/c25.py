"""C25: failures of user functions and of evaluations leave the model usable."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "user functions are deterministic apart from the injected failures",
    "one or two failures per history; failures are exceptions of six classes, including those that the library itself catches",
]
BOUNDS = {
    "quick": "8 models built from user-supplied selections, bases, spectra, overlap functions, waveforms, variances, priors, samplers and nested "
    "functions; histories of 10 operations (construction, likelihood, prior, delay, basis, covariance, conditional mean and draws at two parameter "
    "sets, retry after each failure): every call of every user function failing with each of 6 exception classes, all pairs of calls failing, and 9 kinds of bad "
    "value (or no value) for each parameter before each operation",
    "thorough": "as quick, with all pairs of exception classes for pairs of failures and bad values of every pair of parameters",
}

DAY = 86400.0
KINDS = ["RuntimeError", "LinAlgError", "KeyError", "TypeError", "AttributeError", "KeyboardInterrupt"]


class Fault(object):
    def __init__(self):
        self.n, self.plan, self.fired, self.calls = 0, {}, None, []

    def hit(self, what):
        self.n += 1
        self.calls.append(what)
        if self.n in self.plan:
            kind = self.plan[self.n]
            cls = {"RuntimeError": RuntimeError, "LinAlgError": np.linalg.LinAlgError, "KeyError": KeyError, "TypeError": TypeError,
                   "AttributeError": AttributeError, "KeyboardInterrupt": KeyboardInterrupt}[kind]
            self.fired = cls("injected into call %d (%s)" % (self.n, what))
            raise self.fired


def pulsar(i, seed):
    lay = ["AB|A|BA|B", "A|BB|A|AB", "BA|B|AB|A|B"][i]
    return psrs.make_psr(psrs.spec(name="J000%d+000%d" % (i + 1, i + 1), layout=lay, pos=i, order="mix" if i else "sorted",
                                   tm=["off", "F0", "F1"], t0=53005.37 + 210.0 * i, span=1100.0 + 130.0 * i), seed + i)


def functions(J):
    """User-supplied functions that report each call to J."""
    from enterprise.signals.parameter import function

    class F(object):
        pass

    f = F()

    @function
    def basis(toas, freqs, idx=2.0, nmodes=2):
        J.hit("basis")
        idx = np.asarray(idx, dtype="d")
        F, ff = models.fourier(np.array(toas), nmodes, T=1500 * DAY)
        if not np.all(np.isfinite(idx)):
            raise ValueError("bad index")
        if np.any(idx < 0):
            return F[:-1], ff  # a wrong shape
        return F * ((1400.0 / freqs) ** idx)[:, None], ff

    @function
    def fixed(toas, nmodes=2):
        J.hit("fixed basis")
        return models.fourier(np.array(toas), nmodes, T=1500 * DAY)

    @function
    def prior(f, log10_A=-13.0, gamma=3.0):
        J.hit("prior")
        if np.ndim(log10_A) or np.ndim(gamma):
            raise ValueError("scalars please")
        return models.powerlaw(f, log10_A, gamma)

    @function
    def orf(pos1, pos2, rho_orf=0.3):
        J.hit("orf")
        return 1.0 if np.all(pos1 == pos2) else 1.0 * rho_orf

    @function
    def wave(toas, freqs, amp=1e-6, phase=0.0):
        J.hit("wave")
        return amp * np.sin(2 * np.pi * (toas - 53000 * DAY) / (231.7 * DAY) + phase) * (1000.0 / freqs)

    @function
    def var(toaerrs, efac=1.0):
        J.hit("variance")
        if not np.all(np.asarray(efac) > 0):
            raise ValueError("bad efac")
        return efac**2 * toaerrs**2

    @function
    def nest(psr, gate=0.2, log10_lam=2.0):
        J.hit("nested")
        return 2.5 + gate + 0.1 * log10_lam

    def half(toas):
        J.hit("selection")
        mid = 0.5 * (np.min(toas) + np.max(toas))
        return {"t1": toas <= mid, "t2": toas > mid}

    def back(backend_flags):
        J.hit("selection")
        return {v: backend_flags == v for v in np.unique(backend_flags)}

    def upriorf(value, mean=0.0):
        J.hit("user prior")
        return np.exp(-0.5 * (value - mean) ** 2)

    def ulogprior(value, mean=0.0):
        J.hit("user log prior")
        return -0.5 * np.sum((np.asarray(value) - mean) ** 2)

    def usampler(mean=0.0, size=None):
        J.hit("user sampler")
        return mean + np.random.randn() if size is None else mean + np.random.randn(size)

    f.basis, f.fixed, f.prior, f.orf, f.wave, f.var, f.nest, f.half, f.back = basis, fixed, prior, orf, wave, var, nest, half, back
    f.uprior, f.ulogprior, f.usampler = upriorf, ulogprior, usampler
    return f


def scenario(name, J, seed):
    """A function that builds the PTA, and the operations that make sense for it."""
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import gp_signals, parameter, selections, signal_base
    from enterprise.signals import white_signals as ws
    from enterprise.signals.selections import Selection

    U, C = parameter.Uniform, parameter.Constant
    f = functions(J)
    one, two = [pulsar(0, seed)], [pulsar(i, seed) for i in range(2)]
    PTA = signal_base.PTA
    ops = ["lnl 0", "lnl 1", "prior 0", "cond 0", "delay 1", "lnl 0", "basis 1", "phi 1", "lnl 1"]

    def pr(**kw):
        return f.prior(log10_A=U(-14, -12), gamma=U(1, 5), **kw)

    if name == "noise":
        cls = (
            ws.WhiteNoise(f.var(efac=U(0.5, 2)), selection=Selection(f.half), name="v")
            + ds.Deterministic(f.wave(amp=U(-1, 1), phase=U(0, 6)), selection=Selection(f.back), name="w")
            + gp_signals.TimingModel()
        )
        return (lambda: PTA([cls(p) for p in one])), ["lnl 0", "ndiag 1", "prior 0", "cond 0", "delay 1", "lnl 0", "basis 1", "phi 1", "lnl 1"]
    if name == "gp":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2))
            + gp_signals.BasisGP(pr(), f.basis(idx=U(1, 5)), selection=Selection(f.half), name="g")
            + gp_signals.BasisGP(pr(), f.fixed(), name="h")
            + gp_signals.TimingModel()
        )
        return (lambda: PTA([cls(p) for p in one])), ops
    if name == "shared":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2))
            + gp_signals.BasisGP(pr(), f.fixed(nmodes=3), name="a")
            + gp_signals.BasisGP(pr(), f.fixed(nmodes=2), name="b")
            + ds.Deterministic(f.wave(amp=U(-1, 1), phase=U(0, 6)), name="w")
        )
        return (lambda: PTA([cls(p) for p in one])), ops[:3] + ops[4:]
    if name == "common":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2))
            + gp_signals.BasisGP(pr(), f.fixed(nmodes=3), name="red", combine=False)
            + gp_signals.BasisCommonGP(pr(), f.fixed(nmodes=2), f.orf(rho_orf=U(0.1, 0.7)), name="gw", combine=False)
        )
        return (lambda: PTA([cls(p) for p in two])), ops[:4] + ["lnl 1 partition"] + ops[5:]
    if name == "common2":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2))
            + gp_signals.BasisCommonGP(pr(), f.basis(idx=U(1, 5)), f.orf(), name="cc")
            + gp_signals.FourierBasisCommonGP(pr(), f.orf(rho_orf=0.2), components=2, Tspan=1500 * DAY, name="gw")
        )
        return (lambda: PTA([cls(p) for p in two])), ops[:3] + ["lnl 0 sparse"] + ops[4:]
    if name == "coefficients":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2))
            + gp_signals.BasisGP(pr(), f.basis(idx=2.5), coefficients=True, name="c")
            + gp_signals.BasisGP(pr(), f.fixed(nmodes=1), name="m")
        )
        return (lambda: PTA([cls(p) for p in one])), ops
    if name == "nested":
        mean = parameter.Normal(-13, 0.1)("mean_log10_A")
        up = parameter.UserParameter(prior=parameter.Function(f.uprior, mean=mean), sampler=f.usampler)
        ul = parameter.UserParameter(logprior=parameter.Function(f.ulogprior, mean=3.0), sampler=f.usampler)
        cls = ws.WhiteNoise(f.var(efac=U(0.5, 2)), name="v") + gp_signals.BasisGP(
            f.prior(log10_A=up, gamma=f.nest(gate=U(0.1, 0.4), log10_lam=C(2.0))), f.basis(idx=ul), name="g"
        )
        return (lambda: PTA([cls(p) for p in one])), ["lnl 0", "prior 1", "draw 0", "lnl 1", "prior 0", "cond 0", "draw 1", "phi 1", "lnl 1"]
    if name == "marginal":
        cls = (
            ws.MeasurementNoise(efac=U(0.5, 2), selection=Selection(f.back))
            + ws.EcorrKernelNoise(log10_ecorr=U(-8, -5), selection=Selection(selections.by_backend))
            + gp_signals.BasisGP(pr(), f.basis(idx=U(1, 5)), name="g")
            + ds.Deterministic(f.wave(amp=U(-1, 1), phase=U(0, 6)), name="w")
            + gp_signals.MarginalizingTimingModel()
        )
        return (lambda: PTA([cls(p) for p in one])), ["lnl 0", "lnl 1", "prior 0", "phi 0", "delay 1", "lnl 0", "basis 1", "phi 1", "lnl 1"]
    raise ValueError(name)


SCENARIOS = ["noise", "gp", "shared", "common", "common2", "coefficients", "nested", "marginal"]


def parvalues(pta, v, seed):
    return models.values({p.name: p.size for p in pta.params}, v, seed)


def perform(pta, op, params, seed):
    """The observable result of one operation."""
    from enterprise.signals import parameter, utils

    what = op.split()
    if what[0] == "lnl":
        if len(what) > 2:
            return np.array(pta.get_lnlikelihood(params, phiinv_method=what[2]))
        return np.array(pta.get_lnlikelihood(params))
    if what[0] == "prior":
        return np.array(pta.get_lnprior(params))
    if what[0] == "phi":
        x = pta.get_phi(params)
        return [None if y is None else np.array(y) for y in x] if isinstance(x, list) else np.array(x)
    if what[0] == "ndiag":
        ret = []
        for N, r in zip(pta.get_ndiag(params), pta.get_residuals()):
            x = np.linspace(0.0, 1.0, len(r)) ** 2
            ret.append(np.array(N.solve(x, left_array=x)))
        return ret
    if what[0] in ("delay", "basis"):
        return [None if x is None else np.array(x) for x in getattr(pta, "get_" + what[0])(params)]
    if what[0] == "cond":
        cg = utils.ConditionalGP(pta)
        np.random.seed(seed)
        return [cg.get_mean_coefficients(params), cg.sample_coefficients(params)]
    if what[0] == "draw":
        np.random.seed(seed)
        return parameter.sample(pta.params)
    raise ValueError(op)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return a.size == 0 or bool(np.all(np.abs(a - b) <= 1e-9 * np.max(np.abs(b)) + 1e-300))


PROBES = ["phi", "basis", "delay", "ndiag", "lnl"]


def clean(name, seed):
    J = Fault()
    build, ops = scenario(name, J, seed)
    pta = build()
    nbuild = J.n
    # J counts the calls of construction and of the whole history
    ret = [perform(pta, op, parvalues(pta, int(op.split()[1]), seed), seed) for op in ops]
    ncalls = J.n
    probes = {(k, v): perform(pta, "%s %d" % (k, v), parvalues(pta, v, seed), seed) for k in PROBES for v in (0, 1)}
    for r in ret[:2]:
        if not np.all(np.isfinite(r)):
            raise engine.Violation("the model without failures gives %r" % (r,))
    return ret, ops, nbuild, ncalls, list(J.calls), probes


def check(pta, op, want, seed, history):
    got = perform(pta, op, parvalues(pta, int(op.split()[1]), seed), seed)
    if not same(got, want):
        raise engine.Violation("%s differs from a model that never failed: %s, expected %s (history: %s)" % (op, str(got)[:80], str(want)[:80], "; ".join(history)))


def faulty(name, seed, plan, ref, mode=0):
    """Run the history with the planned failures, retrying each failed step (mode 1, 2: after other evaluations). Returns the number of failures that happened."""
    want, ops = ref[0], ref[1]
    J = Fault()
    J.plan = dict(plan)
    build, _ = scenario(name, J, seed)
    history, fails = [], 0
    pta = None
    for i, op in enumerate([None] + list(ops)):
        for attempt in range(4):
            J.fired = None
            try:
                if op is None:
                    pta = build()
                else:
                    got = perform(pta, op, parvalues(pta, int(op.split()[1]), seed), seed)
            except BaseException as exc:
                if isinstance(exc, engine.CaseTimeout):
                    raise
                if J.fired is None:
                    raise engine.Violation("%s: %s although no function failed (history: %s)" % (op or "build", repr(exc)[:160], "; ".join(history)))
                if exc is not J.fired:
                    raise engine.Violation("%s raised %s instead of the failure %s" % (op or "build", repr(exc)[:120], repr(J.fired)))
                fails += 1
                history.append("%s failed at %s" % (op or "build", J.fired))
                if mode and op is not None:
                    for v in (0, 1) if mode == 1 else (1, 0):
                        for k in PROBES:
                            check(pta, "%s %d" % (k, v), ref[5][k, v], seed, history)
                continue
            if J.fired is not None:
                raise engine.Violation("%s hid the failure %r" % (op or "build", J.fired))
            break
        else:
            raise engine.Violation("%s keeps failing" % op)
        history.append(op or "build")
        if op is not None and not same(got, want[i - 1]):
            raise engine.Violation("%s differs from a model that never failed: %s, expected %s (history: %s)" % (op, str(got)[:80], str(want[i - 1])[:80], "; ".join(history)))
    return fails


BAD = ["missing", "nan", "inf", "-inf", "none", "text", "vector", "negative", "huge"]


def bad_value(kind, par):
    if kind == "vector":
        return np.linspace(1.0, 2.0, 7)
    return {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "none": None, "text": "oops", "negative": -1.5, "huge": 1e300}[kind]


def bad_params(name, seed, which, kinds, at, ref):
    """The history with one more evaluation, with bad values, before step `at`."""
    want, ops = ref[0], ref[1]
    J = Fault()
    build, _ = scenario(name, J, seed)
    pta = build()
    history, failed = [], 0
    for i, op in enumerate(ops):
        if i == at:
            params = parvalues(pta, int(op.split()[1]), seed)
            for p, kind in zip(which, kinds):
                if kind == "missing":
                    del params[p]
                else:
                    params[p] = bad_value(kind, p)
            check(pta, op, want[i], seed, history)
            history.append(op)
            for bad in [op] + [x for x in ("lnl 0", "basis 0", "phi 0", "delay 0") if x.split()[0] != op.split()[0]]:
                if bad.split()[0] != "draw":
                    try:
                        perform(pta, bad, params, seed)
                    except Exception:
                        failed += 1
                    history.append("%s with %s" % (bad.split()[0], ", ".join("%s %s" % x for x in zip(kinds, which))))
                    check(pta, op, want[i], seed, history)
        check(pta, op, want[i], seed, history)
        history.append(op)
    return failed


def cases(tier, seed):
    ret = []
    for s in SCENARIOS:
        for k in KINDS:
            ret.append({"scenario": s, "single": k, "mode": 0})
        for mode in (1, 2):
            ret.append({"scenario": s, "single": "RuntimeError", "mode": mode})
    for s in SCENARIOS:
        for k in BAD:
            ret.append({"scenario": s, "bad": k})
    parts = 4
    for s in SCENARIOS:
        for p in range(parts):
            ret.append({"scenario": s, "pairs": [["RuntimeError", "LinAlgError"]], "part": [p, parts]})
    if tier == "thorough":
        for s in SCENARIOS:
            for a, b in itertools.product(KINDS, KINDS):
                if (a, b) != ("RuntimeError", "LinAlgError"):
                    for p in range(parts):
                        ret.append({"scenario": s, "pairs": [[a, b]], "part": [p, parts]})
            for a, b in itertools.product(BAD, BAD):
                ret.append({"scenario": s, "bad2": [a, b]})
    return ret


def run_case(desc, seed):
    name = desc["scenario"]
    ref = clean(name, seed)
    want, ops, nbuild, ncalls, calls, _ = ref
    n = failed = 0
    if "single" in desc:
        for k in range(1, ncalls + 1):
            hits = faulty(name, seed, {k: desc["single"]}, ref, desc["mode"])
            if hits != 1:
                raise engine.Violation("call %d of %d did not take place" % (k, ncalls))
            n += 1
            failed += hits
    elif "pairs" in desc:
        p, parts = desc["part"]
        for a, b in desc["pairs"]:
            for k1 in range(1, ncalls + 1):
                if k1 % parts != p:
                    continue
                # after a failure, the step is retried: calls are counted in the failing history
                for k2 in range(k1 + 1, ncalls + nbuild + 4):
                    failed += faulty(name, seed, {k1: a, k2: b}, ref)
                    n += 1
    else:
        J = Fault()
        pta = scenario(name, J, seed)[0]()
        names = list({q.name: 1 for q in pta.params})
        for at in range(len(ops)):
            if "bad" in desc:
                for q in names:
                    failed += bad_params(name, seed, [q], [desc["bad"]], at, ref)
                    n += 1
            else:
                for q, r in itertools.permutations(names, 2):
                    failed += bad_params(name, seed, [q, r], desc["bad2"], at, ref)
                    n += 1
    return {"states": n, "transitions": n * (len(ops) + 1), "evaluations": n * (len(ops) + 1), "traces": n,
            "outcomes": [engine.outcome_hash([name, ncalls, failed])], "extra": {"failures": failed},
            "sample": {"calls": ncalls, "failed": failed, "functions": sorted(set(calls))}}
