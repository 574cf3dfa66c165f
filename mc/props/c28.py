"""C28: an argument that is left out takes its documented default, and arguments mean the same by position and by name."""

import itertools

import numpy as np

from mc import engine, psrs, rng

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the documented defaults are those of the signatures at the pinned commit, written out in the check",
    "defaults that do not change any result (sparse or dense likelihood, recorded priors in the text form) are not observable",
]
BOUNDS = {
    "quick": "39 functions, 10 priors and samplers and 34 signal factories and accessors: every subset of up to 8 arguments given explicitly with their documented "
    "defaults (of 10 or more: subsets of up to 2 given or up to 2 omitted), every positional prefix, in 1-4 contexts that make the arguments count",
    "thorough": "every subset of every list of arguments of the functions; subsets of up to 3 given or omitted for the signal factories",
}

DAY = 86400.0
YR = 365.25 * DAY


# ------------------------------------------------------------------ what is observed

def flat(x):
    """Any result as a list of (label, array)."""
    if isinstance(x, dict):
        return [("%s.%s" % (k, l), a) for k in sorted(x, key=str) for l, a in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [("%d.%s" % (i, l), a) for i, y in enumerate(x) for l, a in flat(y)]
    if isinstance(x, slice):
        return [("slice", np.array([x.start, x.stop]))]
    if x is None or isinstance(x, (str, bool)):
        return [(type(x).__name__ + ":" + str(x), np.zeros(0))]
    return [("", np.asarray(x))]


def same(a, b):
    fa, fb = flat(a), flat(b)
    if [l for l, _ in fa] != [l for l, _ in fb]:
        return "parts %s instead of %s" % ([l for l, _ in fa][:8], [l for l, _ in fb][:8])
    for (l, u), (_, v) in zip(fa, fb):
        if u.dtype.kind in "OUS" or v.dtype.kind in "OUS":
            if u.tolist() != v.tolist():
                return "%s is %s instead of %s" % (l, u.tolist(), v.tolist())
        elif u.shape != v.shape:
            return "%s has shape %s instead of %s" % (l, u.shape, v.shape)
        elif u.size and not np.allclose(u, v, rtol=1e-9, atol=1e-13 * np.max(np.abs(v[np.isfinite(v)]), initial=0.0), equal_nan=True):
            i = np.unravel_index(np.argmax(~np.isclose(u, v, rtol=1e-9)), u.shape)
            return "%s is %r instead of %r at %s" % (l, u[i], v[i], tuple(int(k) for k in i))
    return None


_P = {}


def pulsar(seed):
    if seed not in _P:
        raw = psrs.seeded_raw(psrs.spec(layout="AB|A|BA|B|AABB", tm=["off", "F0", "F1"], seed=5, span=2500.0, t0=52300.0), seed)
        raw["flags"]["group"] = np.array(["g%d" % (i % 2) for i in range(len(raw["toas"]))])
        raw["flags"]["band"] = np.array(["b%d" % (i % 3) for i in range(len(raw["toas"]))])
        psr = psrs.from_raw(raw)
        w = psrs.make_psr(
            psrs.spec(name="J0009+0009", layout="A|B|AB|B", pos=2, wideband=1, tm=["off", "DMX_0001"], dmx={"DMX_0001": (50000.0, 60000.0)}, seed=6), seed
        )
        _P[seed] = (psr, w)
    return _P[seed]


def prior_obs(par):
    """Names, sizes and log densities over a range of values."""
    out = []
    with np.errstate(all="ignore"):
        for p in sorted(par.params, key=lambda q: q.name):
            grid = [s * 10.0**e for s in (1, -1) for e in np.arange(-13, 2.01, 0.25)] + [0.0, 0.5, 1.5, -10.0, -5.0, -7.0, 0.1, 10.0, -0.01, 0.01]
            grid += [x + d for x in (0.5, 1.5, -10, -5, -7, 10, -20, -11, 0, 7) for d in (-0.004, 0.004)]
            grid += [x * d for x in (1e-9, 0.05, 0.5, 0.01, 0.1) for s in (1, -1) for d in (s * 0.996, s * 1.004)]
            n = p.size or 1
            try:
                pdf = [p.get_logpdf(x if p.size is None else np.full(n, x)) for x in grid]
            except NotImplementedError as e:  # explicit coefficients of common processes
                pdf = str(e)
            out.append([p.name, -1 if p.size is None else p.size, pdf])
    return out


class _All(object):
    def __init__(self, params):
        self.params = params


def pta_obs(pta, signals):
    from mc import models

    out = {"names": list(pta.param_names), "signals": sorted(signals), "priors": prior_obs(_All(pta.params))}
    for v in range(2):
        pars = {}
        for p in pta.params:
            x = models.value(p.name, p.size, v, 3)
            if p.name.endswith(tuple(WIDTH)):
                x = [w for k, w in WIDTH.items() if p.name.endswith(k)][0] * (0.3 + 0.4 * v) * (1 if p.size is None else np.linspace(0.5, 1, p.size))
            pars[p.name] = x
        out["lnl%d" % v] = [pta.get_lnlikelihood(pars)]
        out["basis%d" % v] = pta.get_basis(pars)
        out["phi%d" % v] = pta.get_phi(pars) if not any("coefficients" in n for n in pta.param_names) else None
        out["delay%d" % v] = pta.get_delay(pars)
        try:
            out["prior%d" % v] = [pta.get_lnprior(pars)]
        except NotImplementedError as e:  # explicit coefficients of common processes
            out["prior%d" % v] = str(e)
    return out


WIDTH = {
    "frame_drift_rate": 1e-9, "d_jupiter_mass": 1.5e-11, "d_saturn_mass": 8e-12, "d_uranus_mass": 5e-11, "d_neptune_mass": 8e-11,
    "jup_orb_elements": 0.04, "sat_orb_elements": 0.4, "log10_tnequad": -6.1, "log10_dmequad": -3.0, "dmefac": 1.1, "dmjump": 1e-3,
    "coefficients": 1e-7, "log10_ecorr": -6.2,
}


# ------------------------------------------------------------------ the table

class Entry(object):
    def __init__(self, name, call, req, defaults, contexts=({},), small=False):
        # call(*args, **kw): result; req: required arguments in order; defaults: optional ones in order
        self.name, self.call, self.req, self.defaults, self.contexts, self.small = name, call, req, defaults, contexts, small


def functions(seed):
    from enterprise.signals import anis_coefficients, gp_bases, gp_priors, gp_signals, selections, utils, white_signals

    psr, _ = pulsar(seed)
    R = []
    t, f, fl = {"toas": psr.toas}, {"freqs": psr.freqs}, psr.flags
    F = dict(nmodes=30, Tspan=None, logf=False, fmin=None, fmax=None)
    modes = [1.1e-8, 2.7e-8]
    sh = [{"pshift": True, "pseed": 7}, {"pshift": True, "pseed": 11, "nmodes": 3}]
    fc = [{}, {"nmodes": 3}, {"modes": modes}, {"logf": True, "fmin": 2e-9}, {"fmax": 3e-8, "nmodes": 4}]

    def add(name, fn, req, defaults, contexts=({},), seeded=False):
        def call(*a, **k):
            if seeded:
                np.random.seed(17)
            return fn(*a, **k)

        R.append(Entry(name, call, req, defaults, contexts))

    add("createfourierdesignmatrix_red", gp_bases.createfourierdesignmatrix_red, t,
        dict(nmodes=30, Tspan=None, logf=False, fmin=None, fmax=None, pshift=False, modes=None, pseed=None), fc + sh)
    for nm, idx in (("dm", {}), ("dm_tn", {"idx": 2})):
        d = dict(nmodes=30, Tspan=None, pshift=False, fref=1400, logf=False, fmin=None, fmax=None)
        d.update(idx)
        add("createfourierdesignmatrix_" + nm, getattr(gp_bases, "createfourierdesignmatrix_" + nm), dict(t, **f), dict(d, modes=None),
            fc + [{"pshift": True}], seeded=True)
    add("createfourierdesignmatrix_env", gp_bases.createfourierdesignmatrix_env, t,
        dict(log10_Amp=-7, log10_Q=np.log10(300), t0=53000 * DAY, nmodes=30, Tspan=None, logf=False, fmin=None, fmax=None, modes=None), fc[:2])
    add("createfourierdesignmatrix_ephem", gp_bases.createfourierdesignmatrix_ephem, dict(t, pos=psr.pos), dict(nmodes=30, Tspan=None))
    add("createfourierdesignmatrix_chromatic", gp_bases.createfourierdesignmatrix_chromatic, dict(t, **f), dict(F, idx=4, modes=None), fc)
    add("createfourierdesignmatrix_general", gp_bases.createfourierdesignmatrix_general, dict(t, **dict(f, flags=fl)),
        dict(flagname="group", flagval=None, idx=None, tndm=False, nmodes=30, Tspan=None, psrTspan=True, logf=False, fmin=None, fmax=None,
             modes=None, pshift=None, pseed=None),
        [{}, {"flagval": "g1", "idx": 2}, {"flagval": "b1", "flagname": "band", "nmodes": 2}, {"pshift": True, "pseed": 7, "idx": 3, "tndm": True}])
    ff = {"f": np.repeat([1e-9, 2.2e-9, 3e-9, 5e-9], 2)}
    P = gp_priors
    add("powerlaw", P.powerlaw, ff, dict(log10_A=-16, gamma=5, components=2))
    add("powerlaw_genmodes", P.powerlaw_genmodes, ff, dict(log10_A=-16, gamma=5, components=2, wgts=None))
    add("turnover", P.turnover, ff, dict(log10_A=-15, gamma=4.33, lf0=-8.5, kappa=10.0 / 3, beta=0.5))
    add("turnover_knee", P.turnover_knee, dict(ff, log10_A=-14.0, gamma=4.0, lfb=-8.7, lfk=-8.2, kappa=3.0, delta=0.3), {})
    add("broken_powerlaw", P.broken_powerlaw, dict(ff, log10_A=-14.0, gamma=4.0, delta=0.2, log10_fb=-8.6), dict(kappa=0.1))
    add("t_process", P.t_process, ff, dict(log10_A=-15, gamma=4.33, alphas=None), [{}, {"alphas": np.array([1.0, 2.0, 0.5, 3.0])}])
    add("t_process_adapt", P.t_process_adapt, ff, dict(log10_A=-15, gamma=4.33, alphas_adapt=None, nfreq=None),
        [{}, {"alphas_adapt": 2.5, "nfreq": 1.0}, {"alphas_adapt": np.array([1.0, 2.0, 0.5, 3.0])}])
    add("InvGammaPrior", P.InvGammaPrior, {"value": np.array([0.3, 1.0, 4.0])}, dict(alpha=1, gamma=1))
    add("InvGammaSampler", P.InvGammaSampler, {}, dict(alpha=1, gamma=1, size=None), seeded=True)
    add("ecorr_basis_prior", gp_signals.ecorr_basis_prior, {"weights": np.ones(3)}, dict(log10_ecorr=-8))
    e = {"toaerrs": psr.toaerrs}
    add("efac_ndiag", white_signals.efac_ndiag, e, dict(efac=1.0))
    add("combined_ndiag", white_signals.combined_ndiag, e, dict(efac=1.0, log10_t2equad=-8))
    add("tnequad_ndiag", white_signals.tnequad_ndiag, t, dict(log10_tnequad=-8))
    add("create_quantization_matrix", utils.create_quantization_matrix, {"toas": 4.6e9 + np.array([0, 0.4, 0.9, 1.3, 5, 5.4, 9, 20, 20.1])}, dict(dt=1, nmin=2))
    U = utils.create_quantization_matrix(np.array([0.0, 0.1, 5.0, 5.1]), dt=1, nmin=2)[0]
    add("quant2ind", lambda **k: [isinstance(x, slice) for x in utils.quant2ind(**k)], {"U": U}, dict(as_slice=False))
    add("quant2ind (by position)", lambda *a, **k: utils.quant2ind(*a, **k), {"U": U}, dict(as_slice=False))
    add("linear_interp_basis", utils.linear_interp_basis, t, dict(dt=30 * DAY))
    M = psr.Mmat
    add("unnormed_tm_basis", utils.unnormed_tm_basis, {"Mmat": M}, dict(idx_exclude=None))
    add("normed_tm_basis", utils.normed_tm_basis, {"Mmat": M}, dict(norm=None, idx_exclude=None), [{}, {"idx_exclude": [1]}, {"norm": np.array([1.0, 2.0, 3.0])}])
    add("svd_tm_basis", utils.svd_tm_basis, {"Mmat": M}, dict(idx_exclude=None))
    add("get_timing_model_basis", lambda *a, **k: gp_signals.get_timing_model_basis(*a, **k)("b", psr=psr)(params={}), {},
        dict(use_svd=False, normed=True, idx_exclude=None), [{}, {"use_svd": True}, {"normed": False}, {"idx_exclude": [1]}])
    add("create_stabletimingdesignmatrix", utils.create_stabletimingdesignmatrix, {"designmat": M}, dict(fastDesign=True))
    add("bwm_delay", utils.bwm_delay, dict(t, pos=psr.pos), dict(log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t0=55000, antenna_pattern_fn=None),
        [{"t0": 53000}, {"t0": 53200, "cos_gwtheta": 0.3, "gwphi": 1.0}, {"t0": 53200, "gwpol": 0.4}, {}])
    far = dict(t, pos=psr.pos)
    far["toas"] = psr.toas + 3000 * DAY
    add("bwm_delay (later TOAs)", utils.bwm_delay, far, dict(log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t0=55000, antenna_pattern_fn=None))
    pt = dict(t, planetssb=psr.planetssb, pos_t=psr.pos_t)
    sig = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
               d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5, model="setIII")
    add("createfourierdesignmatrix_physicalephem", utils.createfourierdesignmatrix_physicalephem, pt, sig)
    tabs = utils.get_planet_orbital_elements("setIII")
    z = np.zeros(6)
    add("physical_ephem_delay", utils.physical_ephem_delay, pt,
        dict(frame_drift_rate=0, d_jupiter_mass=0, d_saturn_mass=0, d_uranus_mass=0, d_neptune_mass=0, jup_orb_elements=z, sat_orb_elements=z,
             times=None, jup_orbit=None, sat_orbit=None, equatorial=True),
        [{}, {"frame_drift_rate": 1e-9}, dict(jup_orb_elements=z + 0.02, times=tabs[0], jup_orbit=tabs[1], sat_orbit=tabs[2])])
    add("get_planet_orbital_elements", utils.get_planet_orbital_elements, {}, dict(model="setIII"))
    x = np.array([[1.0, 2.0, 3.0], [0.3, -0.2, 1.0]])
    add("ss_framerotate", utils.ss_framerotate, dict(mjd=np.array([55000.0, 56000.0]), planet=x, x=0.1, y=0.2, z=0.3, dz=0.4),
        dict(offset=None, equatorial=False), [{}, {"offset": [1.0, 2.0, 3.0]}])
    locs = np.array([[0.3, 1.0], [2.0, 0.4], [4.0, 2.5]])
    add("anis_basis", anis_coefficients.anis_basis, dict(psr_locs=locs, lmax=1), dict(nside=32))
    add("createSignalResponse_pol", anis_coefficients.createSignalResponse_pol,
        dict(pphi=locs[:, :1] + 0 * locs[:, 1:], ptheta=locs[:, 1:], gwphi=np.array([[0.1, 2.0]]) + 0 * locs[:, :1], gwtheta=np.array([[1.0, 2.0]]) + 0 * locs[:, :1]), dict(plus=True, norm=True), [{}, {"plus": False}])
    add("orfFromMap_fast", anis_coefficients.orfFromMap_fast, dict(psr_locs=locs, usermap=np.linspace(0.5, 1.5, 48)), dict(response=None))
    add("by_freq_band", lambda *a, **k: {b: v.astype(int) for b, v in selections.by_freq_band(*a, **k)(
        np.array([0.0, 500.0, 999.9, 1000.0, 1500.0, 1999.0, 2000.0, 2999.0, 3000.0, 9999.0, 10000.0])).items()}, {},
        dict(bands={"Band.1": [0, 1000], "Band.2": [1000, 2000], "Band.3": [2000, 3000], "Band.4": [3000, 10000]}), [{}])
    R[-1].twins = [{"bands": None}]
    return R


def priors(seed):
    from enterprise.signals import gp_priors, parameter

    R = []

    def obs(factory):
        def call(*a, **k):
            p = factory(*a, **k)("x")
            np.random.seed(23)
            with rng.controlled(uniforms=[0.3, 0.6, 0.8, 0.9] * 9, normals=[0.2, -0.4, 0.9] * 9):
                s = p.sample() if "InvGamma" not in type(p).__name__ else None
            return {"prior": prior_obs(p), "sample": s, "size": p.size}

        return call

    v = np.array([0.5, 0.7])
    R.append(Entry("Uniform", obs(parameter.Uniform), dict(pmin=-1.0, pmax=2.0), dict(size=None), [{}, {"size": 2}]))
    R.append(Entry("Normal", obs(parameter.Normal), {}, dict(mu=0, sigma=1, size=None), [{}, {"size": 2}, {"size": 2, "sigma": v}, {"size": 2, "mu": v}]))
    R.append(Entry("LinearExp", obs(parameter.LinearExp), dict(pmin=-1.0, pmax=1.0), dict(size=None), [{}, {"size": 2}]))
    R.append(Entry("TruncNormal", obs(parameter.TruncNormal), {}, dict(mu=0, sigma=1, pmin=-2, pmax=2, size=None), [{}, {"size": 2}]))
    R.append(Entry("InvGamma", obs(gp_priors.InvGamma), {}, dict(alpha=1, gamma=1, size=None), [{}, {"size": 2}]))
    # a user-defined prior and sampler
    def rayleigh(value, c=2.0):
        return np.where(value > 0, value / c**2 * np.exp(-0.5 * value**2 / c**2), 0.0)

    def draw(c=2.0, size=None):
        return c * np.sqrt(-2 * np.log(np.random.uniform(0.0, 1.0, size)))

    F = parameter.Function
    R.append(Entry("UserParameter", obs(parameter.UserParameter), {}, dict(prior=F(rayleigh, c=2.0), logprior=None, sampler=draw, ppf=None, size=None),
                   [dict(prior=F(rayleigh, c=2.0), sampler=draw), dict(prior=F(rayleigh, c=3.0), sampler=draw, size=2)]))

    def drawn(fn):
        def call(*a, **k):
            with rng.controlled(uniforms=[0.3, 0.6, 0.8, 0.9] * 9, normals=[0.2, -0.4, 0.9] * 9):
                return fn(*a, **k)

        return call

    R.append(Entry("UniformSampler", drawn(parameter.UniformSampler), dict(pmin=1.0, pmax=2.0), dict(size=None), [{}]))
    R.append(Entry("NormalSampler", drawn(parameter.NormalSampler), dict(mu=1.0, sigma=2.0), dict(size=None), [{}]))
    R.append(Entry("LinearExpSampler", drawn(parameter.LinearExpSampler), dict(pmin=-1.0, pmax=2.0), dict(size=None), [{}]))
    R.append(Entry("TruncNormalSampler", drawn(parameter.TruncNormalSampler), dict(mu=0.0, sigma=1.0, pmin=-2.0, pmax=2.0), dict(norm=None, size=None), [{}]))
    return R


def signals(seed):
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import gp_bases, gp_priors, gp_signals, parameter, selections, signal_base, utils, white_signals

    psr, wide = pulsar(seed)
    R = []
    T = 3000.0 * DAY
    U, S = parameter.Uniform, selections.Selection
    pl = gp_priors.powerlaw(log10_A=U(-16, -12), gamma=U(0, 7))
    nosel = S(selections.no_selection)
    back = S(selections.by_backend)
    mn = white_signals.MeasurementNoise(efac=parameter.Constant(1.1), name="base")
    red5 = gp_signals.FourierBasisGP(pl, components=2, Tspan=T, name="other")

    def obs(factory, extra=mn, p=psr):
        def call(*a, **k):
            cls = factory(*a, **k)
            alone = signal_base.SignalCollection([cls])(p)
            sigs = (extra + cls)(p)  # (a GP after another one with the same basis: column sharing shows)
            pta = signal_base.PTA([sigs])
            return pta_obs(pta, [s.name for s in alone._signals])

        return call

    def add(name, call, req, defaults, contexts=({},)):
        R.append(Entry(name, call, req, defaults, contexts, small=True))

    red = gp_signals.TimingModel(name="tmx") + mn
    add("MeasurementNoise", obs(white_signals.MeasurementNoise, red), {}, dict(efac=U(0.5, 1.5), log10_t2equad=None, selection=nosel, name=""),
        [{}, {"log10_t2equad": U(-8, -5)}, {"selection": back}, {"name": "x"}])
    add("TNEquadNoise", obs(white_signals.TNEquadNoise, red), {}, dict(log10_tnequad=U(-10, -5), selection=nosel, name=""), [{}, {"selection": back, "name": "q"}])
    add("WhiteNoise", obs(white_signals.WhiteNoise, red), dict(varianceFunction=white_signals.efac_ndiag(efac=U(0.5, 1.5))), dict(selection=nosel, name=""),
        [{}, {"selection": back}])
    add("EcorrKernelNoise", obs(white_signals.EcorrKernelNoise, red + mn), {}, dict(log10_ecorr=U(-10, -5), selection=nosel, method="fast-sherman-morrison", name=""),
        [{}, {"selection": back}, {"method": "sparse"}])
    add("EcorrBasisModel", obs(gp_signals.EcorrBasisModel), {}, dict(log10_ecorr=U(-10, -5), coefficients=False, selection=nosel, name="basis_ecorr"),
        [{}, {"selection": back}])
    fgp = dict(coefficients=False, combine=True, components=20, selection=nosel, Tspan=None, logf=False, fmin=None, fmax=None, modes=None,
               name="red_noise", pshift=False, pseed=None)
    ctx = [{"components": 2, "Tspan": T}, {"components": 3}, {}, {"modes": [1.1e-8, 2.7e-8]}, {"components": 2, "pshift": True, "pseed": 3}, {"components": 2, "logf": True, "fmin": 2e-9}]
    add("FourierBasisGP", obs(gp_signals.FourierBasisGP, mn + red5), dict(spectrum=pl), fgp, ctx + [{"components": 2, "selection": back}])
    common = dict(fgp, name="common_fourier")
    del common["selection"]
    add("FourierBasisCommonGP", obs(gp_signals.FourierBasisCommonGP, mn + red5), dict(spectrum=pl, orf=utils.hd_orf()), common, ctx)
    fb = gp_bases.createfourierdesignmatrix_red(nmodes=2, Tspan=T)
    add("BasisGP", obs(gp_signals.BasisGP, mn + red5), dict(priorFunction=pl, basisFunction=fb), dict(coefficients=False, combine=True, selection=nosel, name=""),
        [{}, {"name": "n", "selection": back}])
    add("BasisCommonGP", obs(gp_signals.BasisCommonGP, mn + red5), dict(priorFunction=pl, basisFunction=fb, orfFunction=utils.hd_orf()),
        dict(coefficients=False, combine=True, name=""), [{}, {"name": "n"}])
    add("FourierBasisCommonGP_ephem", obs(gp_signals.FourierBasisCommonGP_ephem), dict(spectrum=gp_priors.powerlaw(log10_A=U(-16, -12), gamma=U(0, 7), components=6),
        components=2, Tspan=T), dict(name="ephem_gp"))
    ephem = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
                 d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5, model="setIII", coefficients=False, name="phys_ephem_gp")
    add("FourierBasisCommonGP_physicalephem", obs(gp_signals.FourierBasisCommonGP_physicalephem), {}, ephem, [{}, {"coefficients": True}])
    add("TimingModel", obs(gp_signals.TimingModel), {}, dict(coefficients=False, name="linear_timing_model", use_svd=False, normed=True, idx_exclude=None),
        [{}, {"use_svd": True}, {"idx_exclude": [1]}, {"coefficients": True}])
    add("MarginalizingTimingModel", obs(gp_signals.MarginalizingTimingModel, mn + red5), {}, dict(name="marginalizing_linear_timing_model", use_svd=False, normed=True),
        [{}, {"use_svd": True}])
    add("WidebandTimingModel", obs(gp_signals.WidebandTimingModel, mn, wide), {},
        dict(dmefac=U(pmin=0.1, pmax=10.0), log10_dmequad=U(pmin=-7.0, pmax=0.0), dmjump=U(pmin=-0.01, pmax=0.01), selection=nosel, dmjump_selection=nosel,
             dmjump_ref=None, name="wideband_timing_model"), [{"dmjump_selection": back}, {"dmjump": None}, {"selection": back, "dmjump_selection": back}, {"dmjump_selection": back, "dmjump_ref": "Rcvr1_2_GUPPI"}])

    @parameter.function
    def wave(toas, amp=1e-6):
        return amp * np.sin(toas / 1e7)

    add("Deterministic", obs(ds.Deterministic, mn + red5), dict(waveform=wave(amp=U(-10, -5))), dict(selection=nosel, name=""), [{}, {"selection": back}])
    N = parameter.Normal
    phys = dict(frame_drift_rate=True, d_jupiter_mass=True, d_saturn_mass=True, d_uranus_mass=True, d_neptune_mass=True, jup_orb_elements=True,
                sat_orb_elements=False, model="setIII", use_epoch_toas=True, name="")
    add("PhysicalEphemerisSignal", obs(ds.PhysicalEphemerisSignal, mn + red5), {}, phys, [{}, {"sat_orb_elements": True}, {"model": "orbel"}])
    written = dict(
        frame_drift_rate=U(-1e-9, 1e-9)("frame_drift_rate"), d_jupiter_mass=N(0, 1.54976690e-11)("d_jupiter_mass"),
        d_saturn_mass=N(0, 8.17306184e-12)("d_saturn_mass"), d_uranus_mass=N(0, 5.71923361e-11)("d_uranus_mass"),
        d_neptune_mass=N(0, 7.96103855e-11)("d_neptune_mass"), jup_orb_elements=U(-0.05, 0.05, size=6)("jup_orb_elements"),
        sat_orb_elements=U(-0.5, 0.5, size=6)("sat_orb_elements"),
    )
    # True stands for the documented prior
    add("PhysicalEphemerisSignal (priors)", obs(ds.PhysicalEphemerisSignal, mn + red5), {}, written, [{}])
    R[-1].base = {k: True for k in written}

    # draws from the conditional distribution
    gps = gp_signals.FourierBasisGP(pl, components=2, combine=False) + gp_signals.TimingModel()
    hd = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=1, Tspan=T, combine=False, name="gw")
    for nm, cls in (("", mn + gps), (" (common)", mn + gps + hd)):
        pta = signal_base.PTA([cls(psr), cls(wide)])
        pars = {n: -13.1 if "log10_A" in n else 3.1 for n in pta.param_names}

        def coeffs(*a, **k):
            with rng.controlled(normals=[((i * 7) % 11 - 5) / 4.0 for i in range(200)]):
                return utils.get_coefficients(*a, **k)

        def cond(pta, params, *a, **k):
            with rng.controlled(normals=[((i * 7) % 11 - 5) / 4.0 for i in range(400)]):
                c = utils.ConditionalGP(pta, *a, **k)
                return [c.sample_coefficients(params), c.sample_coefficients(params, 2), c.get_mean_processes(params), c.sample_processes(params)]

        add("get_coefficients" + nm, coeffs, dict(pta=pta, params=pars), dict(n=1, phiinv_method="cliques", variance=True, common_sparse=False),
            [{}, {"n": 2}, {"variance": False}])
        add("ConditionalGP" + nm, cond, dict(pta=pta, params=pars), dict(phiinv_method="cliques"), [{}])
        for meth in ("sample_coefficients", "sample_processes"):

            def sample(*a, pta=pta, meth=meth, **k):
                with rng.controlled(normals=[((i * 7) % 11 - 5) / 4.0 for i in range(400)]):
                    return getattr(utils.ConditionalGP(pta), meth)(*a, **k)

            add(meth + nm, sample, dict(params=pars), dict(n=1), [{}])
        for meth, defaults in (("get_phiinv", dict(logdet=False, method="cliques")), ("get_phi", dict(cliques=False))):

            def inverse(*a, pta=pta, meth=meth, **k):
                x = getattr(pta, meth)(*a, **k)
                return x.toarray() if hasattr(x, "toarray") else x

            add(meth + nm, inverse, dict(params=pars), defaults, [{}])
    # the DM part of the wideband model
    wb = gp_signals.WidebandTimingModel(dmjump_selection=back)(wide)
    wpars = {q.name: 1.2 if "dmefac" in q.name else -3.2 if "equad" in q.name else 2e-3 for q in wb.params}
    for meth in ("get_delta_dm", "get_dm_chi2"):
        add(meth, getattr(wb, meth), dict(params=wpars), dict(use_mean_dm=False), [{}])

    # accessors of models without free parameters
    fixed = parameter.Constant(-14.0), parameter.Constant(3.0)
    m = white_signals.MeasurementNoise(efac=parameter.Constant(1.2)) + gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=fixed[0], gamma=fixed[1]), components=2)
    pta = signal_base.PTA([m(psr)])
    for meth in ("get_basis", "get_delay", "get_ndiag"):

        def access(*a, meth=meth, **k):
            x = getattr(pta, meth)(*a, **k)
            return [y.solve(np.ones(len(psr.toas)), left_array=np.ones(len(psr.toas))) for y in x] if meth == "get_ndiag" else x

        add(meth, access, {}, dict(params={}), [{}])
    return R


GROUPS = {"functions": functions, "priors": priors, "signals": signals}
# how many entries each group has (so that cases() needs no imports)
COUNT = {"functions": 39, "priors": 10, "signals": 34}


def cases(tier, seed):
    return [{"group": g, "i": i, "tier": tier} for g in GROUPS for i in range(COUNT[g])]


def subsets(keys, small, tier):
    k = len(keys)
    lim = (3 if tier == "thorough" else 2) if small and k > 4 else (k if k <= 8 or tier == "thorough" else 2)
    for n in range(k + 1):
        if n <= lim or n >= k - lim:
            for s in itertools.combinations(keys, n):
                yield s


def run_case(desc, seed):
    entries = GROUPS[desc["group"]](seed)
    if len(entries) != COUNT[desc["group"]]:
        raise RuntimeError("%d entries in %s" % (len(entries), desc["group"]))
    e = entries[desc["i"]]
    n, outs = 0, set()

    def run(what, args, kw):
        try:
            return e.call(*args, **kw)
        except engine.Violation:
            raise
        except Exception as ex:  # noqa: BLE001
            raise engine.Violation("%s: %s raises %s: %s" % (e.name, what, type(ex).__name__, ex))

    for ctx in e.contexts:
        base = dict(getattr(e, "base", {}), **ctx)
        opts = {k: v for k, v in e.defaults.items() if k not in ctx}
        order = list(e.req) + list(e.defaults)
        full = dict(e.req, **base)
        full.update(opts)
        want = run("with all arguments", [], full)
        outs.add(engine.outcome_hash([l for l, _ in flat(want)] + [float(np.sum(np.where(np.isfinite(a), a, 0))) for _, a in flat(want) if a.dtype.kind in "fiu"]))
        n += 1
        for s in subsets(list(opts), e.small, desc["tier"]):
            kw = dict(e.req, **base)
            kw.update({k: opts[k] for k in s})
            got = run("with %s given" % (list(s),), [], kw)
            n += 1
            bad = same(got, want)
            if bad:
                raise engine.Violation(
                    "%s with %s: giving only %s is not the same as giving %s: %s"
                    % (e.name, {k: str(v)[:40] for k, v in ctx.items()}, list(s), {k: str(v)[:60] for k, v in opts.items() if k not in s}, bad)
                )
        for alt in getattr(e, "twins", []):
            bad = same(run("with %s" % alt, [], dict(e.req, **alt)), want)
            if bad:
                raise engine.Violation("%s with %s: %s" % (e.name, alt, bad))
        # the name given is the one in the names of signals and parameters
        if desc["group"] == "signals" and "name" in e.defaults:
            a, b = (run("named %s" % w, [], dict(full, name=w)) for w in ("qqa", "qqb"))
            n += 2
            free = lambda o: sorted(o["names"]) + sorted(o["signals"])
            if free(b) != sorted(w.replace("qqa", "qqb") for w in a["names"]) + sorted(w.replace("qqa", "qqb") for w in a["signals"]):
                raise engine.Violation("%s: names %s with the name qqa, %s with qqb" % (e.name, free(a), free(b)))
            if not all("qqa" in w for w in a["signals"]):
                raise engine.Violation("%s: the signal's name %s does not contain the given name qqa" % (e.name, a["signals"]))
            old = full["name"]
            if len(old) > 3:
                if free(a) != sorted(w.replace(old, "qqa") for w in want["names"]) + sorted(w.replace(old, "qqa") for w in want["signals"]):
                    raise engine.Violation("%s: names %s with the name qqa, %s with %s" % (e.name, free(a), free(want), old))
                if any(old in w for w in want["names"]) != any("qqa" in w for w in a["names"]):
                    raise engine.Violation("%s: names %s" % (e.name, a["names"]))
        # by position
        if e.name != "quant2ind":
            for k in range(1, len(order) + 1):
                args = [full[x] for x in order[:k]]
                kw = {x: v for x, v in full.items() if x not in order[:k]}
                bad = same(run("with %d arguments by position" % k, args, kw), want)
                n += 1
                if bad:
                    raise engine.Violation("%s with %s: giving %s by position is not the same as by name: %s" % (e.name, {a: str(v)[:40] for a, v in ctx.items()}, order[:k], bad))
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(outs)[:40], "sample": {"entry": e.name}}
