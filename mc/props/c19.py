"""C19: explicit GP coefficients describe the same process as marginalized ones."""

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "1-3 pulsars with 4-9 (or 1300) TOAs, up to 16 coefficients in all",
    "the exponent is a quadratic form in the coefficients, identified from 1 + 2n + n(n-1)/2 probes and confirmed at further points",
    "the joint prior of the coefficients of a common process is not provided by enterprise; for those, likelihood and delay are checked, "
    "and the integral with the shared coefficient vector of a fully correlated process",
]
BOUNDS = {
    "quick": "all models within 2 deviations over 8 axes (process, selection, parameter kinds, other signals, order, timing model, pulsars, "
    "layout), 3 parameter points each; all common processes with explicit coefficients",
    "thorough": "3 deviations, 4 parameter points",
}

T = 1300.0 * 86400.0
PHYS = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
            d_neptune_mass=7.96103855e-11)

AXES = dict(
    proc=["pl", "free", "turn", "dense", "se", "dm", "dmtn", "chrom", "vchrom", "gate", "span", "becorr", "tm", "tmraw", "modes"],
    sel=["none", "backend", "band", "cdict"],
    pars=["u", "c", "cs", "v", "s"],
    other=["none", "red", "coeff", "ecorr", "wave", "gw", "same"],
    order=["sorted", "mix"],
    tm=["tm", "none", "marg"],
    npsr=[1, 2],
    lay=["a", "b", "c", "long"],
)
BASE = {k: v[0] for k, v in AXES.items()}


def cases(tier, seed):
    cfgs = []
    for c in models.deviations(BASE, AXES, 2 if tier == "quick" else 3):
        if c["proc"] in ("tm", "tmraw") and (c["tm"] != "tm" or c["sel"] != "none" or c["pars"] != "u"):
            continue
        if c["proc"] == "free" and c["pars"] in ("c", "cs", "v"):
            continue
        if c["proc"] == "becorr" and c["lay"] == "a" and c["sel"] != "none":
            c = dict(c, lay="b")  # every selection has epochs
        cfgs.append(c)
    # 1310 TOAs
    for d in ({}, {"sel": "backend"}, {"proc": "chrom"}, {"proc": "tm"}, {"proc": "free", "other": "wave"}, {"order": "mix"}):
        cfgs.append(dict(BASE, lay="huge", **d))
    k = 2 if tier == "quick" else 6
    ret = [{"configs": cfgs[i : i + k], "npoints": 3 if tier == "quick" else 4} for i in range(0, len(cfgs), k)]
    for spec in ("pl", "free", "turn"):
        for basis in ("red", "dm", "chrom"):
            for orf in ("hd", "mono", "par"):
                for pars in ("u", "c", "s"):
                    for np_ in (1, 2):
                        ret.append({"common": [spec, basis, orf, pars], "npsr": np_})
    for basis in ("red", "phys", "vbasis"):
        for npsr in (1, 2, 3):
            ret.append({"shared": basis, "npsr": npsr})
    return ret


def pulsars(cfg, seed, n=None):
    lays = {"a": ["AB|A|BA|B", "A|BB|AB|A"], "b": ["AA|BB|A|BB", "AABB|AAB"], "c": ["ABAB|AABB", "BB|AA|AB|B"],
            "long": [psrs.long_layout(epochs=40), psrs.long_layout("BCA", 25)], "huge": [psrs.long_layout("CAB", 520)]}[cfg["lay"]]
    ret = []
    for i in range(n or cfg["npsr"]):
        sp = psrs.spec(name="J000%d+000%d" % (i + 1, i + 1), layout=lays[i % 2], pos=i, order=cfg["order"], sort=cfg["order"] != "rev",
                       tm=["off", "F0"])
        ret.append(psrs.make_psr(sp, seed * 7 + i))
    return ret


def process(cfg, coeff):
    k = {}
    names = {"pl": ["log10_A", "gamma"], "dm": ["log10_A", "gamma"], "free": ["log10_rho"], "se": ["log10_sigma", "log10_lam"],
             "turn": ["log10_A", "gamma", "lf0", "kappa"], "becorr": ["log10_ecorr"], "gate": ["log10_A", "gamma", "gate"], "span": ["log10_A", "gamma", "span"],
             "vchrom": ["log10_A", "gamma", "idx"]}.get(cfg["proc"], ["log10_A", "gamma"])
    if cfg["pars"] == "s":
        k = {n: "s:common_" + n for n in names}
    elif cfg["pars"] != "u":
        k = {n: cfg["pars"] for n in (names[:1] if cfg["pars"] == "v" else names)}
    if cfg["pars"] == "cs":  # the basis must exist before constants are set
        k = {n: "c" if n in ("idx", "gate", "span") else v for n, v in k.items()}
    o = {"T": T, "n": 2, "pars": k, "coeff": coeff, "sel": cfg["sel"], "name": "proc"}
    p = cfg["proc"]
    if p == "pl":
        return ["red", o]
    if p in ("free", "turn", "dense"):
        return ["red", dict(o, spec=p)]
    if p == "se":
        return ["se", {"pars": k, "coeff": coeff, "sel": cfg["sel"], "name": "proc", "dt": 400.0}]
    if p in ("dm", "dmtn", "gate", "span"):
        return ["red", dict(o, basis=p)]
    if p == "chrom":
        return ["red", dict(o, basis="chrom", idx=3)]
    if p == "vchrom":
        return ["red", dict(o, basis="chrom", vidx=1)]
    if p == "modes":
        return ["red", dict(o, modes=[0.6 / T, 1.7 / T, 2.9 / T], n=3)]
    if p == "becorr":
        return ["becorr", {"pars": k, "coeff": coeff, "sel": cfg["sel"], "name": "proc"}]
    if p in ("tm", "tmraw"):
        return ["tm", {"normed": p == "tm"}]
    raise ValueError(p)


def quadratic(f, scales):
    """f(c) for a quadratic f: value at 0, gradient and Hessian in units of the scales."""
    n = len(scales)
    e = np.diag(scales)
    f0 = f(np.zeros(n))
    fp = np.array([f(e[i]) for i in range(n)])
    fm = np.array([f(-e[i]) for i in range(n)])
    g = (fp - fm) / 2
    H = np.zeros((n, n))
    for i in range(n):
        H[i, i] = fp[i] + fm[i] - 2 * f0
        for j in range(i):
            H[i, j] = H[j, i] = f(e[i] + e[j]) - fp[i] - fp[j] + f0
    return f0, g, H, 1 + 2 * n + n * (n - 1) // 2


def integrate(f, scales, label):
    """log of the integral of exp f over all the coefficients."""
    f0, g, H, nev = quadratic(f, scales)
    for m in range(2):
        x = np.array([1.3 * np.sin(2.1 * k + m) for k in range(len(scales))])
        want, got = f0 + g @ x + 0.5 * x @ H @ x, f(x * scales)
        if abs(want - got) > 1e-6 * (1 + abs(f0) + abs(got)):
            raise engine.Violation("the exponent is not quadratic in the coefficients: %r, expected %r (%s)" % (got, want, label))
        nev += 1
    s, ld = np.linalg.slogdet(-H)
    if s <= 0 or np.any(np.linalg.eigvalsh(-H) <= 0):
        raise engine.Violation("likelihood times prior is not normalizable over the coefficients (%s)" % label)
    return f0 + 0.5 * g @ np.linalg.solve(-H, g) - 0.5 * ld + 0.5 * len(scales) * np.log(2 * np.pi) + np.sum(np.log(scales)), nev


def pack(names, sizes, c):
    ret, i = {}, 0
    for n in names:
        k = sizes[n]
        ret[n] = c[i : i + k]
        i += k
    return ret


def check(cfg, seed, npoints):
    ps = pulsars(cfg, seed)
    rest = [["mn", {"sel": "backend"}]]
    if cfg["tm"] != "none" and cfg["proc"] not in ("tm", "tmraw"):
        rest.append(["tm", {"marg": cfg["tm"] == "marg"}])
    R = {"T": T, "n": 2}
    rest += {
        "none": [], "red": [["red", dict(R)]], "coeff": [["red", dict(R, n=1, coeff=1, name="second")]],
        "ecorr": [["ecorr", {"sel": "backend"}]], "wave": [["wave", {"sel": "band"}]],
        "gw": [["gw", dict(R)], ["red", dict(R, sel="backend")]],
        "same": [["red", dict(R, name="twin")]],  # same columns as the explicit process
    }[cfg["other"]]
    isTM = cfg["proc"] in ("tm", "tmraw")
    proc, marg = process(cfg, 1), process(cfg, 0)
    model = models.Model(rest if isTM else [proc] + rest, ps)
    unexp = [[k, dict(o, coeff=0)] if o.get("coeff") else [k, o] for k, o in rest]
    mmodel = models.Model([marg] + unexp, ps)
    free, const = model.names()
    if isTM:
        from enterprise.signals import gp_signals, signal_base

        tm = gp_signals.TimingModel(coefficients=True, normed=proc[1]["normed"])
        for p in ps:
            free[p.name + "_linear_timing_model_coefficients"] = p.Mmat.shape[1]
        pta = signal_base.PTA([(model.metamodel(i) + tm)(p) for i, p in enumerate(ps)])
    else:
        pta = model.pta()
    mpta = mmodel.pta()
    cvals = {}
    if cfg["pars"] == "cs":
        cvals = models.values(const, 5, seed)
        pta.set_default_params(cvals)
        mpta.set_default_params(cvals)

    cn = sorted(n for n in free if n.endswith("_coefficients") and free[n])
    if sorted(pta.param_names) != sorted(pta_names(free)):
        raise engine.Violation("parameters %s, expected %s (%s)" % (pta.param_names, sorted(pta_names(free)), cfg))
    n, outs = 0, []
    hyper = {k: s for k, s in free.items() if not k.endswith("_coefficients")}
    zero = {k: np.zeros(0) for k in free if k.endswith("_coefficients") and not free[k]}
    scales = np.concatenate([coefficient_scale(nm, free[nm], cfg) for nm in cn])
    by_name = {p.name: p for p in pta.params}
    uni = 0.0
    for nm in hyper:
        lo, hi = models.DOMAIN[models.kind_of(nm)]
        uni -= np.log(21 * (hi - lo)) * (hyper[nm] or 1)
    for pt in list(range(npoints)) + [0]:
        h = models.values(hyper, pt, seed)
        full = dict(cvals, **h)
        macc = mmodel.accs(full)
        want = models.lnlike(macc)
        phis = prior_blocks(model, mmodel, macc, ps, free)

        def f(c):
            pars = dict(h, **pack(cn, free, c))
            pars.update(zero)
            return pta.get_lnlikelihood(pars) + pta.get_lnprior(pars)

        # the prior and the delay at a few points; the first one right after the same coefficients with other hyperparameters
        for m in range(3):
            if m == 2:
                h2 = models.values(hyper, pt + 1, seed)
            else:
                h2 = h
            full2 = dict(cvals, **h2)
            c = scales * np.array([1.1 * np.cos(1.7 * k + (m > 0) * (1 + pt)) for k in range(len(scales))])
            pars = dict(h2, **pack(cn, free, c))
            pars.update(zero)
            if m == 2:
                phis = prior_blocks(model, mmodel, mmodel.accs(full2), ps, free)
            for nm in cn:
                lp = by_name[nm].get_logpdf(params=pars)
                if isTM and "linear_timing_model" in nm:
                    lref = 0.0
                else:
                    phi = phis[nm]
                    P = np.diag(phi) if phi.ndim == 1 else phi
                    x = pars[nm]
                    lref = -0.5 * x @ np.linalg.solve(P, x) - 0.5 * (np.linalg.slogdet(P)[1]) - 0.5 * len(x) * np.log(2 * np.pi)
                if not abs(lp - lref) <= 1e-7 * (1 + abs(lref)):
                    raise engine.Violation("coefficient log prior of %s %r, expected %r (%s)" % (nm, lp, lref, cfg))
            ref = models.lnlike(model.accs(dict(cvals, **pars)) if not isTM else tm_accs(model, ps, proc, dict(cvals, **pars)))
            got = pta.get_lnlikelihood(pars)
            if not abs(got - ref) <= 1e-6 * (1 + abs(ref)):
                raise engine.Violation("log likelihood with explicit coefficients %r, expected %r (%s)" % (got, ref, cfg))
            n += 2 + len(cn)
        got, nev = integrate(f, scales, cfg)
        got -= uni
        n += nev
        if isTM:
            k = sum(free[nm] for nm in cn if "linear_timing" in nm)
            got -= 0.5 * k * np.log(2 * np.pi) + 0.5 * k * np.log(1e40)
        if not abs(got - want) <= 2e-5 * (1 + abs(want)):
            raise engine.Violation("integral over the coefficients %r, marginalized likelihood %r (%s)" % (got, want, cfg))
        m = mpta.get_lnlikelihood(h)
        if not abs(m - want) <= 1e-6 * (1 + abs(want)) and not isTM:
            raise engine.Violation("marginalized likelihood %r, expected %r (%s)" % (m, want, cfg))
        n += 1
        outs.append(engine.outcome_hash(float(want)))
    return n, outs


def pta_names(free):
    """Free parameters expand to one name per element in param_names."""
    ret = []
    for k, s in free.items():
        ret += [k] if s is None else ["%s_%d" % (k, i) for i in range(s)]
    return ret


def coefficient_scale(nm, size, cfg):
    if "linear_timing" in nm:
        if cfg["proc"] == "tmraw":
            return np.array([1e-6, 3e-5, 1e-9][:size])
        return np.full(size, 2e-6)
    return np.full(size, 1e-6 if cfg["proc"] != "dmtn" or "second" in nm else 1e-6 / 7.7)


def prior_blocks(model, mmodel, macc, ps, free):
    """Prior variance (or covariance) of every coefficient parameter, from the reference of the marginalized model."""
    ret = {}
    for ip, p in enumerate(ps):
        gps = {tag: phi for tag, F, phi in macc[ip].gps}
        for comp in model.comps:
            if not comp.o.get("coeff"):
                continue
            nm = models.join(p.name, comp.o["name"])
            phi, i = gps[nm], 0
            for k in models.masks(comp.o.get("sel"), p):
                c = models.join(nm, k) + "_coefficients"
                s = free[c]
                ret[c] = phi[i : i + s] if phi.ndim == 1 else phi[i : i + s, i : i + s]
                i += s
    return ret


def tm_accs(model, ps, proc, pars):
    accs = model.accs(pars)
    for a, p in zip(accs, ps):
        M = p.Mmat / np.sqrt(np.sum(p.Mmat**2, axis=0)) if proc[1]["normed"] else p.Mmat
        a.delay = a.delay + M @ pars[p.name + "_linear_timing_model_coefficients"]
    return accs


def check_common(desc, seed):
    """Common processes with explicit coefficients: likelihood, delay, and no joint prior."""
    spec, basis, orf, pk = desc["common"]
    ps = pulsars(BASE, seed, desc["npsr"])
    names = {"pl": ["log10_A", "gamma"], "free": ["log10_rho"], "turn": ["log10_A", "gamma", "lf0", "kappa"]}[spec]
    pars = {} if pk == "u" else {k: "c" for k in names} if pk == "c" else {k: "s:x_" + k for k in names}
    comps = [["mn", {}], ["tm", {}], ["red", {"T": T, "n": 2}],
             ["gw", {"T": T, "n": 2, "spec": spec, "basis": basis, "orf": orf, "pars": pars, "coeff": 1}]]
    model = models.Model(comps, ps)
    free, const = model.names()
    pta = model.pta()
    if sorted(pta.param_names) != sorted(pta_names(free)):
        raise engine.Violation("parameters %s, expected %s (%s)" % (pta.param_names, sorted(pta_names(free)), desc))
    n, outs = 0, []
    for v in (0, 1, 2, 0, 3):
        p = models.values(free, v, seed)
        if v == 3:  # the coefficients of the last point, everything else new
            p.update({k: x for k, x in models.values(free, 0, seed).items() if k.endswith("coefficients")})
        ref = models.lnlike(model.accs(p))
        got = pta.get_lnlikelihood(p)
        n += 1
        if not abs(got - ref) <= 1e-6 * (1 + abs(ref)):
            raise engine.Violation("log likelihood with explicit coefficients %r, expected %r (%s)" % (got, ref, desc))
        for d, a in zip(pta.get_delay(p), model.accs(p)):
            if not models.close(d, a.delay, 1e-9, 1e-15):
                raise engine.Violation("delay of the explicit coefficients differs (%s)" % desc)
            n += 1
        outs.append(engine.outcome_hash(float(ref)))
    return n, outs


def check_shared(desc, seed):
    """One coefficient vector shared by all the pulsars = the fully correlated process."""
    from enterprise.signals import gp_signals, gp_priors, gp_bases, parameter, signal_base, utils
    from enterprise.signals.parameter import function

    ps = pulsars(BASE, seed, desc["npsr"])
    comps = [["mn", {}], ["tm", {}], ["red", {"T": T, "n": 2}]]
    model = models.Model(comps, ps)
    kind = desc["shared"]
    sig = np.concatenate([list(PHYS.values()), np.full(6, 0.05), np.full(6, 0.5)]) if kind == "phys" else np.ones(4)
    cpar = parameter.Normal(0, sig, size=len(sig))("shared_coefficients")
    width = 0.5 * np.ones(4)
    if kind == "phys":  # probes of about the size of the noise
        width = np.minimum(sig, 3e-6 * sig / np.max([np.std(phys_basis(p), axis=0) for p in ps], axis=0))
    if kind == "phys":
        sig = gp_signals.FourierBasisCommonGP_physicalephem(coefficients=cpar)
    else:
        @function
        def basis(toas, freqs, nmodes=2, idx=2.0):
            F, f = models.fourier(toas, nmodes, T)
            return 1e-6 * F * ((1400 / freqs) ** idx)[:, None], f

        @function
        def flat(f):
            return np.ones(len(f))

        b = basis(idx=parameter.Uniform(1, 5)) if kind == "vbasis" else basis()
        sig = gp_signals.BasisCommonGP(flat(), b, utils.monopole_orf(), coefficients=cpar, name="sh")
    pta = signal_base.PTA([(model.metamodel(i) + sig)(p) for i, p in enumerate(ps)])
    free, const = model.names()
    if kind == "vbasis":
        for p in ps:
            free[p.name + "_sh_idx"] = None
    k = cpar.size
    want_names = sorted(pta_names(dict(free, shared_coefficients=k)))
    if sorted(pta.param_names) != want_names:
        raise engine.Violation("parameters %s, expected %s" % (pta.param_names, want_names))
    n, outs = 0, []
    for v in (0, 1, 0):
        h = {}
        for nm, s in free.items():
            h[nm] = 1.5 + 3 * models.unit(nm, v) if nm.endswith("sh_idx") else models.value(nm, s, v, seed)
        accs = model.accs(h)
        if kind == "phys":
            Fs = [phys_basis(p) for p in ps]  # times the prior sigmas
        else:
            Fs = []
            for p in ps:
                F, _ = models.fourier(p.toas, 2, T)
                Fs.append(1e-6 * F * ((1400 / p.freqs) ** h.get(p.name + "_sh_idx", 2.0))[:, None])
        one = lambda i, j: 1.0  # noqa: E731
        for a, F in zip(accs, Fs):
            a.common.append(("sh", F, np.ones(k), "flat", None))
        old = models.orf_value
        models.orf_value = lambda kd, i, j, p1, p2, same, extra=None: 1.0 if kd == "flat" else old(kd, i, j, p1, p2, same, extra)
        try:
            want = models.lnlike(accs)
        finally:
            models.orf_value = old

        def f(c):
            pars = dict(h, shared_coefficients=c)
            return pta.get_lnlikelihood(pars) + cpar.get_logpdf(params=pars)

        got, nev = integrate(f, width, desc)
        n += nev
        if not abs(got - want) <= 2e-5 * (1 + abs(want)):
            raise engine.Violation("integral over the shared coefficients %r, fully correlated process %r (%s)" % (got, want, desc))
        outs.append(engine.outcome_hash(float(want)))
    return n, outs


def phys_basis(psr):
    """Physical-ephemeris columns: the delay of each unit perturbation times its prior sigma, projected on the pulsar."""
    from enterprise.signals import utils

    orb = utils.get_planet_orbital_elements("setIII")
    times, jup, sat = orb
    cols = []
    for k, s in PHYS.items():
        cols.append(s * utils.physical_ephem_delay(psr.toas, psr.planetssb, psr.pos_t, **{k: 1e-5}) / 1e-5)
    for nm, s, arr in (("jup_orb_elements", 0.05, jup), ("sat_orb_elements", 0.5, sat)):
        for i in range(6):
            v = np.zeros(6)
            v[i] = s
            cols.append(utils.physical_ephem_delay(
                psr.toas, psr.planetssb, psr.pos_t, times=times, **{nm: v, nm[:3] + "_orbit": arr}))
    return np.array(cols).T


def run_case(desc, seed):
    if "common" in desc:
        n, outs = check_common(desc, seed)
        return {"states": 1, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(set(outs)), "sample": outs[:2]}
    if "shared" in desc:
        n, outs = check_shared(desc, seed)
        return {"states": 1, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(set(outs)), "sample": outs[:2]}
    n, outs = 0, []
    for cfg in desc["configs"]:
        k, o = check(cfg, seed, desc["npoints"])
        n += k
        outs += o
    return {"states": len(desc["configs"]), "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(set(outs)),
            "sample": outs[:2]}
