"""C21: GP spectra follow their formulas bin by bin."""

import itertools

import numpy as np

from mc import engine, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["increasing frequencies; the number of columns per frequency is 2 except where a spectrum has an argument for it"]
BOUNDS = {
    "quick": "13 spectra x all increasing frequency lists of up to 5 out of 6 irregular frequencies, and regular and logarithmic grids of 1-8 and 30 frequencies x full "
    "parameter grids (3 values per parameter, defaults included) x 1-3 columns per frequency where settable; single-element changes for every element",
    "thorough": "lists of up to 7 out of 8 frequencies, 4 values per parameter",
}

YR = 365.25 * 86400.0
FYR = 1.0 / YR

GRID = dict(
    log10_A=[-13.2, -16, -14.7, -18.1],
    gamma=[4.33, 0.5, 6.7, 13.0 / 3],
    lf0=[-8.5, -7.9, -9.2, -8.1],
    kappa=[10.0 / 3, 1.2, 5.0, 2.6],
    beta=[0.5, 1.3, 0.2, 1.0],
    lfb=[-8.6, -7.8, -9.0, -8.2],
    lfk=[-8.0, -7.4, -8.7, -7.0],
    delta=[0.4, -1.1, 2.2, 0.0],
    log10_fb=[-8.4, -7.7, -9.1, -8.0],
    kap=[0.1, 0.3, 0.05, 0.5],
)


def widths(fr):
    return [fr[0]] + [b - a for a, b in zip(fr[:-1], fr[1:])]


def psd_pl(f, A, g):
    return 10.0 ** (2 * A) / (12 * np.pi**2) * (f * YR) ** (-g) * YR**3


def from_strain(f, hc):
    return hc**2 / (12 * np.pi**2 * f**3)


def ref_powerlaw(f, log10_A=-16, gamma=5):
    return psd_pl(f, log10_A, gamma)


def ref_turnover(f, log10_A=-15, gamma=4.33, lf0=-8.5, kappa=10 / 3, beta=0.5):
    return from_strain(f, 10.0**log10_A * (f * YR) ** ((3 - gamma) / 2.0) / (1 + (10.0**lf0 / f) ** kappa) ** beta)


def ref_knee(f, log10_A, gamma, lfb, lfk, kappa, delta):
    return from_strain(
        f, 10.0**log10_A * (f * YR) ** ((3 - gamma) / 2.0) * (1 + f / 10.0**lfk) ** delta / (1 + (10.0**lfb / f) ** kappa) ** 0.5
    )


def ref_broken(f, log10_A, gamma, delta, log10_fb, kappa=0.1):
    return from_strain(
        f, 10.0**log10_A * (f * YR) ** ((3 - gamma) / 2.0) * (1 + (f / 10.0**log10_fb) ** (1.0 / kappa)) ** (kappa * (gamma - delta) / 2.0)
    )


# name: (reference PSD, arguments that may be omitted, arguments that may not)
PLAIN = {
    "powerlaw": (ref_powerlaw, ["log10_A", "gamma"], []),
    "powerlaw_genmodes": (ref_powerlaw, ["log10_A", "gamma"], []),
    "t_process": (lambda f, log10_A=-15, gamma=4.33: psd_pl(f, log10_A, gamma), ["log10_A", "gamma"], []),
    "t_process_adapt": (lambda f, log10_A=-15, gamma=4.33: psd_pl(f, log10_A, gamma), ["log10_A", "gamma"], []),
    "turnover": (ref_turnover, ["log10_A", "gamma", "lf0", "kappa", "beta"], []),
    "turnover_knee": (ref_knee, [], ["log10_A", "gamma", "lfb", "lfk", "kappa", "delta"]),
    "broken_powerlaw": (ref_broken, ["kappa"], ["log10_A", "gamma", "delta", "log10_fb"]),
}


def freq_lists(tier):
    lat = [0.7e-9, 1.9e-9, 2.3e-9, 8.1e-9, 1.7e-8, 9.3e-8, 3.3e-8, 5.0e-9]
    m = 6 if tier == "quick" else 8
    lat = sorted(lat[:m])
    ret = [list(c) for k in range(1, m) for c in itertools.combinations(lat, k)]
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 30] + ([100] if tier != "quick" else []):
        ret.append([(k + 1) / (1300 * 86400.0) for k in range(n)])
        ret.append([1e-9 * 1.7**k for k in range(n)])
    return ret


def cases(tier, seed):
    ret = []
    for sp in PLAIN:
        k = {"turnover": 6, "turnover_knee": 12, "broken_powerlaw": 4}.get(sp, 1) * (1 if tier == "quick" else 6)
        ret += [{"plain": sp, "part": [i, k], "tier": tier} for i in range(k)]
    ret += [{"elements": sp, "tier": tier} for sp in ("free_spectrum", "t_process", "t_process_adapt", "nfreq", "wgts", "fixed")]
    return ret


def close(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-11 * np.abs(want)):
        raise engine.Violation("%s: got %s, expected %s" % (what, got[:6], want[:6]))


def evaluate(fn, f, kw, n):
    """Directly, through parameters named in a dictionary, or through constants."""
    from enterprise.signals import parameter

    f0 = f.copy()
    how = n % 3
    if how == 0:
        ret = fn(f, **kw)
    else:
        args, params = {}, {}
        for k, v in kw.items():
            size = len(v) if isinstance(v, np.ndarray) and v.ndim else None
            if how == 1 and k not in ("components", "nfreq", "wgts"):
                args[k] = parameter.Uniform(-30, 30, size=size)
                params["J_gp_" + k] = v
            elif how == 2 and k not in ("components", "nfreq", "wgts"):
                args[k] = parameter.Constant(v)
            else:
                args[k] = v
        inst = fn(**args)("J_gp", psr=PSR[0])
        if sorted(p.name for p in inst.params if not isinstance(p, parameter.ConstantParameter)) != sorted(params):
            raise engine.Violation("parameters %s, expected %s" % ([p.name for p in inst.params], sorted(params)))
        ret = inst(f, params=params)
    if not np.array_equal(f, f0):
        raise engine.Violation("the frequencies were modified")
    return ret


PSR = []


def run_plain(desc):
    from enterprise.signals import gp_priors

    name = desc["plain"]
    ref, opt, req = PLAIN[name]
    fn = getattr(gp_priors, name)
    nv = 3 if desc["tier"] == "quick" else 4
    grids = []
    for a in req + opt:
        key = "kap" if (name, a) == ("broken_powerlaw", "kappa") else a
        grids.append([(a, v) for v in GRID[key][: nv if len(req + opt) < 6 else nv - 1]] + ([(a, None)] if a in opt else []))
    k, parts = desc["part"]
    n, out = 0, []
    for ip, point in enumerate(itertools.product(*grids)):
        if ip % parts != k:
            continue
        kw = {a: v for a, v in point if v is not None}
        for fr in freq_lists(desc["tier"]):
            comps = [None, 1, 2, 3] if name in ("powerlaw", "powerlaw_genmodes") else [None]
            S = [ref(x, **kw) * w for x, w in zip(fr, widths(fr))]
            for c in comps:
                kk = dict(kw) if c is None else dict(kw, components=c)
                f = np.repeat(fr, c or 2)
                got = evaluate(fn, f, kk, n)
                close(got, np.repeat(S, c or 2), "%s(%s) at %s" % (name, kk, fr))
                n += 1
        out.append(engine.outcome_hash(got))
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": out}


def run_elements(desc, seed):
    from enterprise.signals import gp_priors, utils

    name = desc["elements"]
    rng = np.random.RandomState(seed)
    n = 0
    for fr in freq_lists(desc["tier"]):
        f = np.repeat(fr, 2)
        m = len(fr)
        for A, g in ((-13.4, 4.1), (-15.2, 2.2)):
            S = np.array([psd_pl(x, A, g) * w for x, w in zip(fr, widths(fr))])
            kw = {"log10_A": A, "gamma": g}
            base = rng.uniform(0.3, 3.0, m)
            settings = [base] + [np.where(np.arange(m) == j, 7.7, base) for j in range(m)]
            for x in settings:
                if name == "free_spectrum":
                    got, want = evaluate(gp_priors.free_spectrum, f, {"log10_rho": -7 + x}, n), np.repeat(10.0 ** (2 * (-7 + x)), 2)
                elif name == "t_process":
                    got, want = evaluate(gp_priors.t_process, f, dict(kw, alphas=x), n), np.repeat(S * x, 2)
                elif name == "t_process_adapt":
                    got, want = evaluate(gp_priors.t_process_adapt, f, dict(kw, alphas_adapt=x), n), np.repeat(S * x, 2)
                elif name == "wgts":
                    got = evaluate(gp_priors.powerlaw_genmodes, f, dict(kw, wgts=x), n)
                    want = np.repeat([psd_pl(y, A, g) * w**2 for y, w in zip(fr, x)], 2)
                else:
                    continue
                close(got, want, "%s with elements %s at %s" % (name, x, fr))
                n += 1
            if name == "wgts":
                for c in (1, 3):
                    got = evaluate(gp_priors.powerlaw_genmodes, np.repeat(fr, c), dict(kw, wgts=base, components=c), n)
                    close(got, np.repeat([psd_pl(y, A, g) * w**2 for y, w in zip(fr, base)], c), "mode weights with %d columns at %s" % (c, fr))
                    n += 1
            if name == "nfreq":
                for j in range(m):
                    for d in (-0.4, 0.0, 0.3):
                        if j + d < 0:
                            continue
                        x = np.ones(m)
                        x[j] = 4.2
                        for a in (4.2, np.array([4.2])):
                            got = gp_priors.t_process_adapt(f, alphas_adapt=a, nfreq=j + d, **kw)
                            close(got, np.repeat(S * x, 2), "adaptive t-process with nfreq %s at %s" % (j + d, fr))
                            n += 1
            if name == "fixed":
                close(gp_priors.infinitepower(f), np.full(2 * m, 1e40), "infinite power")
                w = rng.uniform(0.5, 2.0, m)
                close(utils.tm_prior(w), 1e40 * w, "timing-model prior")
                close(utils.physicalephem_spectrum(w), w**2, "ephemeris prior")
                from enterprise.signals import gp_bases  # noqa: F401

                n += 3
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [name]}


def run_case(desc, seed):
    if not PSR:
        PSR.append(psrs.make_psr(psrs.spec(), seed))
    return run_plain(desc) if "plain" in desc else run_elements(desc, seed)
