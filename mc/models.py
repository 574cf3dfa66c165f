"""Model components: each one builds the enterprise signal and, independently, contributes the dense
reference description of the same statistical model.

A model is a list of components [kind, options].  The reference never calls enterprise's bases, spectra,
overlap functions, masks or parameter naming: they are recomputed here from the documented formulas.
"""

import hashlib

import numpy as np
import scipy.linalg as sl

YR = 365.25 * 86400.0
FYR = 1.0 / YR
DAY = 86400.0

DOMAIN = {
    "efac": (0.7, 1.6),
    "log10_t2equad": (-6.9, -5.9),
    "log10_tnequad": (-6.9, -5.9),
    "log10_ecorr": (-6.7, -5.7),
    "log10_A": (-13.4, -12.6),
    "gamma": (1.5, 4.6),
    "log10_rho": (-7.0, -5.6),
    "idx": (1.5, 4.5),
    "log10_sigma": (-6.9, -6.0),
    "log10_lam": (1.6, 2.3),
    "rho_orf": (0.1, 0.7),
    "amp": (-2e-6, 2e-6),
    "phase": (0.0, 6.0),
    "coefficients": (-1.5e-6, 1.5e-6),
    "t0": (53200.0, 53900.0),
    "lf0": (-8.6, -7.9),
    "kappa": (1.0, 4.0),
    "dmefac": (0.8, 1.4),
    "log10_dmequad": (-4.2, -3.2),
    "dmjump": (-2e-3, 2e-3),
    "gate": (0.1, 0.4),
    "span": (9e7, 1.6e8),
    "frame_drift_rate": (-1e-9, 1e-9),
    "d_jupiter_mass": (-1.5e-11, 1.5e-11),
    "d_saturn_mass": (-8e-12, 8e-12),
    "d_uranus_mass": (-6e-11, 6e-11),
    "d_neptune_mass": (-8e-11, 8e-11),
    "jup_orb_elements": (-0.05, 0.05),
    "sat_orb_elements": (-0.5, 0.5),
}


def kind_of(name):
    """Domain of a parameter from the end of its name (longest match)."""
    best = None
    for k in DOMAIN:
        if name.endswith(k) and (best is None or len(k) > len(best)):
            best = k
    return best


def unit(*keys):
    h = hashlib.md5(repr(keys).encode()).hexdigest()
    return int(h[:12], 16) / float(16**12)


def value(name, size, variant, seed):
    lo, hi = DOMAIN[kind_of(name)]
    if size:
        return np.array([lo + (hi - lo) * unit(name, i, variant, seed) for i in range(size)])
    return lo + (hi - lo) * unit(name, variant, seed)


def values(names, variant, seed):
    """names: {name: size-or-None} -> parameter dictionary."""
    return {n: value(n, s, variant, seed) for n, s in sorted(names.items())}


# ---------------------------------------------------------------- reference formulas


def fourier(toas, n, T=None, modes=None, logf=False, fmin=None, fmax=None):
    T = (max(toas) - min(toas)) if T is None else T
    if modes is not None:
        f = [float(m) for m in modes]
    elif not logf and fmin is None and fmax is None:
        f = [(k + 1) / T for k in range(n)]
    else:
        a = 1.0 / T if fmin is None else fmin
        b = n / T if fmax is None else fmax
        if n == 1:
            f = [a]
        elif logf:
            f = [10 ** (np.log10(a) + (np.log10(b) - np.log10(a)) * k / (n - 1.0)) for k in range(n)]
        else:
            f = [a + (b - a) * k / (n - 1.0) for k in range(n)]
    F = np.zeros((len(toas), 2 * len(f)))
    for k, fk in enumerate(f):
        F[:, 2 * k] = np.sin(2 * np.pi * toas * fk)
        F[:, 2 * k + 1] = np.cos(2 * np.pi * toas * fk)
    return F, np.repeat(f, 2)


def bin_widths(ff):
    f = ff[::2]
    df = [f[0]] + [f[i] - f[i - 1] for i in range(1, len(f))]
    return np.repeat(df, 2)


def powerlaw(ff, log10_A, gamma):
    return 10 ** (2 * log10_A) / (12 * np.pi**2) * FYR ** (gamma - 3) * ff ** (-gamma) * bin_widths(ff)


def turnover(ff, log10_A, gamma, lf0, kappa, beta=0.5):
    hc = 10**log10_A * (ff / FYR) ** ((3 - gamma) / 2.0) / (1 + (10**lf0 / ff) ** kappa) ** beta
    return hc**2 / (12 * np.pi**2) / ff**3 * bin_widths(ff)


def orf_value(kind, i, j, pos1, pos2, same, extra=None):
    """Overlap between two pulsars; `same` = identical positions."""
    if kind == "hd":
        if same:
            return 1.0
        x = (1 - np.dot(pos1, pos2)) / 2.0
        return 1.5 * x * np.log(x) - 0.25 * x + 0.5
    if kind == "mono":
        return 1 + 1e-5 if same else 1.0
    if kind == "dip":
        return 1 + 1e-5 if same else float(np.dot(pos1, pos2))
    if kind == "par":
        return 1.0 if same else extra * float(np.dot(pos1, pos2))
    if kind == "none":
        return 1.0 if same else 0.0
    raise ValueError(kind)


def masks(sel, psr):
    """Expected selection masks {key: mask}, from the public data of the pulsar."""
    n = len(psr.toas)
    if sel in (None, "none"):
        return {"": np.ones(n, bool)}
    if sel == "backend":
        vals = [str(v) for v in psr.backend_flags]
    elif sel == "band":
        vals = [str(v) for v in psr.flags["B"]]
    elif sel == "fe":
        vals = [str(v) for v in psr.flags["fe"]]
    elif sel == "tel":
        vals = [str(v) for v in psr.telescope]
    elif sel == "half":
        mid = (max(psr.toas) + min(psr.toas)) / 2.0
        vals = ["t1" if t <= mid else "t2" for t in psr.toas]
    elif sel == "nanograv":
        vals = [str(v) for v in psr.backend_flags]
        ok = [any(b in v for b in ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]) for v in vals]
        return {k: np.array([v == k for v in vals]) for k in sorted(set(v for v, o in zip(vals, ok) if o))}
    elif sel == "freqband":
        bands = {"Band.1": (0, 1000), "Band.2": (1000, 2000), "Band.3": (2000, 3000), "Band.4": (3000, 10000)}
        ret = {k: np.array([lo <= f < hi for f in psr.freqs]) for k, (lo, hi) in bands.items()}
        return {k: m for k, m in sorted(ret.items()) if m.any()}
    elif sel == "index":
        return {"odd": np.array([i in (1, 3) for i in range(n)])}
    elif sel == "custom":
        bf = [str(v) for v in psr.backend_flags]
        return {k: np.array([v == k for v in bf]) for k in sorted(set(bf)) if "GUPPI" in k or "custom" in k}
    elif sel == "cdict":  # overlapping masks
        b, fe = [str(v) for v in psr.flags["B"]], [str(v) for v in psr.flags["fe"]]
        ret = {k: np.array([v == k for v in b]) for k in set(b)}
        ret.update({k: np.array([v == k for v in fe]) for k in set(fe) if "L-w" in k or "Rcvr" in k})
        return dict(sorted(ret.items()))
    elif sel.startswith("idx:"):
        name, idx = sel.split(":")[1:]
        return {name: np.array([str(i) in idx.split(",") for i in range(n)])}
    else:
        raise ValueError(sel)
    return {k: np.array([v == k for v in vals]) for k in sorted(set(vals))}


def make_selection(sel):
    from enterprise.signals import selections
    from enterprise.signals.selections import Selection

    if sel and sel.startswith("idx:"):
        name, idx = sel.split(":")[1:]
        return Selection(selections.by_index(name, [int(i) for i in idx.split(",")]))

    f = {
        "none": selections.no_selection,
        "backend": selections.by_backend,
        "band": selections.by_band,
        "fe": selections.by_frontend,
        "tel": selections.by_telescope,
        "half": selections.cut_half,
        "nanograv": selections.nanograv_backends,
        "freqband": selections.by_freq_band(),
        "index": selections.by_index("odd", [1, 3]),
        "custom": selections.custom_backends(["GUPPI", "custom"]),
        "cdict": selections.custom_backends_dict({"B": None, "fe": ["L-w", "Rcvr"]}),
    }[sel or "none"]
    return Selection(f)


def epochs(toas, dt=1.0):
    """Observing epochs: greedy clusters of TOAs within dt of the first TOA of the epoch."""
    order = sorted(range(len(toas)), key=lambda i: (toas[i], i))
    ret, ref = [], None
    for i in order:
        if ref is None or toas[i] - ref >= dt:
            ret.append([])
            ref = toas[i]
        ret[-1].append(i)
    return ret


def join(*a):
    return "_".join([x for x in a if x])


class Acc(object):
    """Dense description of the model of one pulsar."""

    def __init__(self, psr):
        self.psr = psr
        n = len(psr.toas)
        self.n = n
        self.N = np.zeros(n)  # diagonal white noise
        self.K = np.zeros((n, n))  # correlated white noise (ECORR kernel)
        self.gps = []  # (tag, F, Phi matrix)
        self.common = []  # (tag, F, prior vector/matrix fn, orf)
        self.M = []  # improper columns
        self.delay = np.zeros(n)
        self.extra = 0.0


class Pars(object):
    """Creates enterprise parameters for a component and remembers how they are named."""

    def __init__(self, opts):
        self.reg = {}  # named instances of the model
        self.kinds = opts.get("pars", {})  # kw -> "u" | "s:<name>" | "c" | "cs" | "v"

    def make(self, kw, size=None, dom=None):
        from enterprise.signals import parameter

        lo, hi = DOMAIN[dom or kw]
        k = self.kinds.get(kw, "u")
        if k == "u":
            return parameter.Uniform(lo - 10 * (hi - lo), hi + 10 * (hi - lo), size=size)
        if k.startswith("s:"):  # a named instance, shared by whoever uses it
            if k[2:] not in self.reg:
                self.reg[k[2:]] = parameter.Uniform(lo - 10 * (hi - lo), hi + 10 * (hi - lo), size=size)(k[2:])
            return self.reg[k[2:]]
        if k == "c":  # constant with a value
            return parameter.Constant(const_value(kw, dom))
        if k == "cs":  # constant to be set later
            return parameter.Constant()
        if k == "v":  # plain value
            return const_value(kw, dom)
        raise ValueError(k)

    def name(self, kw, prefix):
        k = self.kinds.get(kw, "u")
        return k[2:] if k.startswith("s:") else join(prefix, kw)

    def get(self, kw, prefix, params, dom=None):
        k = self.kinds.get(kw, "u")
        if k == "v":
            return const_value(kw, dom)
        n = self.name(kw, prefix)
        if k == "c" and n not in params:
            return const_value(kw, dom)
        return params[n]

    def declare(self, kw, prefix, size, free, const):
        k = self.kinds.get(kw, "u")
        n = self.name(kw, prefix)
        if k in ("u",) or k.startswith("s:"):
            free[n] = size
        elif k in ("c", "cs"):
            const[n] = size


def const_value(kw, dom=None):
    lo, hi = DOMAIN[dom or kw]
    return lo + 0.37 * (hi - lo)


# ---------------------------------------------------------------- components


class Comp(object):
    def __init__(self, opts):
        self.o = opts
        self.p = Pars(opts)
        self._sig = None

    def signal(self):
        if self._sig is None:
            self._sig = self.build()
        return self._sig

    def names(self, psr, free, const):
        pass

    def ref(self, psr, params, acc):
        pass


class MeasNoise(Comp):
    def build(self):
        from enterprise.signals import white_signals

        return white_signals.MeasurementNoise(
            efac=self.p.make("efac"),
            log10_t2equad=self.p.make("log10_t2equad") if self.o.get("eq") else None,
            selection=make_selection(self.o.get("sel")),
            name=self.o.get("name", ""),
        )

    def names(self, psr, free, const):
        for k in masks(self.o.get("sel"), psr):
            pre = join(psr.name, self.o.get("name", ""), k)
            self.p.declare("efac", pre, None, free, const)
            if self.o.get("eq"):
                self.p.declare("log10_t2equad", pre, None, free, const)

    def ref(self, psr, params, acc):
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", ""), k)
            ef = self.p.get("efac", pre, params)
            var = psr.toaerrs**2
            if self.o.get("eq"):
                var = var + 10 ** (2 * self.p.get("log10_t2equad", pre, params))
            acc.N[m] += (ef**2 * var)[m]


class TNEquad(Comp):
    def build(self):
        from enterprise.signals import white_signals

        return white_signals.TNEquadNoise(
            log10_tnequad=self.p.make("log10_tnequad"),
            selection=make_selection(self.o.get("sel")),
            name=self.o.get("name", ""),
        )

    def names(self, psr, free, const):
        for k in masks(self.o.get("sel"), psr):
            self.p.declare("log10_tnequad", join(psr.name, self.o.get("name", ""), k), None, free, const)

    def ref(self, psr, params, acc):
        for k, m in masks(self.o.get("sel"), psr).items():
            acc.N[m] += 10 ** (2 * self.p.get("log10_tnequad", join(psr.name, self.o.get("name", ""), k), params))


class EcorrKernel(Comp):
    def build(self):
        from enterprise.signals import white_signals

        return white_signals.EcorrKernelNoise(
            log10_ecorr=self.p.make("log10_ecorr"),
            selection=make_selection(self.o.get("sel")),
            method=self.o.get("method", "sherman-morrison"),
            name=self.o.get("name", ""),
        )

    def names(self, psr, free, const):
        for k in masks(self.o.get("sel"), psr):
            self.p.declare("log10_ecorr", join(psr.name, k), None, free, const)

    def ref(self, psr, params, acc):
        for k, m in masks(self.o.get("sel"), psr).items():
            j = 10 ** (2 * self.p.get("log10_ecorr", join(psr.name, k), params))
            idx = np.flatnonzero(m)
            for ep in epochs(psr.toas[idx]):
                if len(ep) > 1:
                    e = idx[ep]
                    acc.K[np.ix_(e, e)] += j


class EcorrBasis(Comp):
    def build(self):
        from enterprise.signals import gp_signals

        return gp_signals.EcorrBasisModel(
            log10_ecorr=self.p.make("log10_ecorr"),
            selection=make_selection(self.o.get("sel")),
            coefficients=bool(self.o.get("coeff")),
            **({"name": self.o["name"]} if "name" in self.o else {}),
        )

    def _eps(self, psr, m):
        idx = np.flatnonzero(m)
        return [idx[ep] for ep in epochs(psr.toas[idx]) if len(ep) > 1]

    def names(self, psr, free, const):
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", "basis_ecorr"), k)
            self.p.declare("log10_ecorr", pre, None, free, const)
            if self.o.get("coeff"):
                free[pre + "_coefficients"] = len(self._eps(psr, m))

    def ref(self, psr, params, acc):
        Fs, ph = [], []
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", "basis_ecorr"), k)
            j = 10 ** (2 * self.p.get("log10_ecorr", pre, params))
            eps = self._eps(psr, m)
            U = np.zeros((acc.n, len(eps)))
            for i, ep in enumerate(eps):
                U[ep, i] = 1.0
            if self.o.get("coeff"):
                acc.delay += U @ np.atleast_1d(params[pre + "_coefficients"])
            else:
                Fs.append(U)
                ph += [j] * len(eps)
        if Fs:
            acc.gps.append((join(psr.name, self.o.get("name", "basis_ecorr")), np.hstack(Fs), np.array(ph)))


class Timing(Comp):
    def build(self):
        from enterprise.signals import gp_signals

        o = dict(self.o)
        if isinstance(o.get("normed"), list):
            o["normed"] = np.array(o["normed"])
        if o.get("marg"):
            return gp_signals.MarginalizingTimingModel(use_svd=bool(o.get("svd")), normed=o.get("normed", True))
        kw = {}
        if o.get("exclude"):
            kw["idx_exclude"] = o["exclude"]
        return gp_signals.TimingModel(use_svd=bool(o.get("svd")), normed=o.get("normed", True), **kw)

    def ref(self, psr, params, acc):
        o = self.o
        cols = [i for i in range(psr.Mmat.shape[1]) if i not in (o.get("exclude") or [])]
        M = psr.Mmat[:, cols]
        if o.get("svd"):
            M = np.linalg.svd(M, full_matrices=False)[0]
        elif o.get("normed", True) is True:
            M = M / np.sqrt(np.sum(M**2, axis=0))
        elif o.get("normed") is not False:
            M = M / np.array(o["normed"])
        acc.M.append(M)


def spectrum_function(o, p):
    from enterprise.signals import gp_priors

    s = o.get("spec", "pl")
    if s == "pl":
        return gp_priors.powerlaw(log10_A=p.make("log10_A"), gamma=p.make("gamma"))
    if s == "turn":
        return gp_priors.turnover(
            log10_A=p.make("log10_A"), gamma=p.make("gamma"), lf0=p.make("lf0"), kappa=p.make("kappa")
        )
    if s == "free":
        return gp_priors.free_spectrum(log10_rho=p.make("log10_rho", size=o["n"]))
    if s == "dense":
        return dense_prior_function()(log10_A=p.make("log10_A"), gamma=p.make("gamma"))
    if s == "band":
        return dense_prior_function(dense_from_diag_band)(log10_A=p.make("log10_A"), gamma=p.make("gamma"))
    raise ValueError(s)


def spectrum_names(o, p, prefix, free, const):
    s = o.get("spec", "pl")
    if s in ("pl", "turn", "dense", "band"):
        p.declare("log10_A", prefix, None, free, const)
        p.declare("gamma", prefix, None, free, const)
    if s == "turn":
        p.declare("lf0", prefix, None, free, const)
        p.declare("kappa", prefix, None, free, const)
    if s == "free":
        p.declare("log10_rho", prefix, o["n"], free, const)


def spectrum_ref(o, p, prefix, ff, params):
    s = o.get("spec", "pl")
    g = lambda kw: p.get(kw, prefix, params)  # noqa: E731
    if s == "pl":
        return powerlaw(ff, g("log10_A"), g("gamma"))
    if s == "turn":
        return turnover(ff, g("log10_A"), g("gamma"), g("lf0"), g("kappa"))
    if s == "free":
        return np.repeat(10 ** (2 * np.asarray(g("log10_rho"))), 2)
    if s == "dense":
        d = powerlaw(ff, g("log10_A"), g("gamma"))
        return dense_from_diag(d)
    if s == "band":
        return dense_from_diag_band(powerlaw(ff, g("log10_A"), g("gamma")))
    raise ValueError(s)


def dense_from_diag(d):
    s = np.sqrt(d)
    n = len(d)
    R = np.array([[0.6 ** abs(i - j) for j in range(n)] for i in range(n)])
    return s[:, None] * R * s[None, :]


def dense_from_diag_band(d):
    """Sines and cosines of neighbouring frequencies are correlated, others are not."""
    s = np.sqrt(d)
    n = len(d)
    R = np.array([[{0: 1.0, 2: 0.45}.get(abs(i - j), 0.0) for j in range(n)] for i in range(n)])
    return s[:, None] * R * s[None, :]


def dense_prior_function(matrix=None):
    matrix = matrix or dense_from_diag
    from enterprise.signals.parameter import function

    @function
    def dense_prior(f, log10_A=-13, gamma=3):
        return matrix(powerlaw(f, log10_A, gamma))

    return dense_prior


def gate_ref(toas, F, gate):
    """Pairs of columns switched on one after the other in time."""
    x = (toas - toas[0]) / (1e-3 + toas[-1] - toas[0])
    on = np.array([[1.0 if gate * k <= t else 0.0 for k in range(F.shape[1])] for t in x])
    return F * on


def gate_function():
    from enterprise.signals.parameter import function

    @function
    def gate_basis(toas, nmodes=2, Tspan=None, gate=0.3):
        F, f = fourier(toas, nmodes, Tspan)
        return gate_ref(toas, F, gate), f

    return gate_basis


def span_function():
    from enterprise.signals.parameter import function

    @function
    def span_basis(toas, nmodes=2, span=1e8):
        return fourier(toas, nmodes, span)

    return span_basis


class Fourier(Comp):
    """Per-pulsar Fourier GP (red, dm, dm_tn, chromatic with fixed or varying index)."""

    def nm(self):
        return self.o.get("name", "red_noise")

    def build(self):
        from enterprise.signals import gp_signals, gp_bases

        o = self.o
        spec = spectrum_function(o, self.p)
        kw = dict(
            Tspan=o.get("T"), logf=bool(o.get("logf")), fmin=o.get("fmin"), fmax=o.get("fmax"), modes=o.get("modes")
        )
        basis = o.get("basis", "red")
        if basis == "red":
            return gp_signals.FourierBasisGP(
                spec,
                coefficients=bool(o.get("coeff")),
                combine=o.get("combine", True),
                components=o["n"],
                selection=make_selection(o.get("sel")),
                name=self.nm(),
                **kw,
            )
        if basis == "dm":
            b = gp_bases.createfourierdesignmatrix_dm(nmodes=o["n"], fref=o.get("fref", 1400), **kw)
        elif basis == "dmtn":
            b = gp_bases.createfourierdesignmatrix_dm_tn(nmodes=o["n"], **kw)
        elif basis == "chrom":
            b = gp_bases.createfourierdesignmatrix_chromatic(
                nmodes=o["n"], idx=self.p.make("idx") if o.get("vidx") else o.get("idx", 4), **kw
            )
        elif basis == "gate":
            b = gate_function()(nmodes=o["n"], Tspan=o["T"], gate=self.p.make("gate"))
        elif basis == "span":  # frequencies that depend on a parameter
            b = span_function()(nmodes=o["n"], span=self.p.make("span"))
        else:
            raise ValueError(basis)
        return gp_signals.BasisGP(
            spec,
            b,
            coefficients=bool(o.get("coeff")),
            combine=o.get("combine", True),
            selection=make_selection(o.get("sel")),
            name=self.nm(),
        )

    def names(self, psr, free, const):
        for k in masks(self.o.get("sel"), psr):
            pre = join(psr.name, self.nm(), k)
            spectrum_names(self.o, self.p, pre, free, const)
            if self.o.get("basis") == "chrom" and self.o.get("vidx"):
                self.p.declare("idx", pre, None, free, const)
            if self.o.get("basis") in ("gate", "span"):
                self.p.declare(self.o["basis"], pre, None, free, const)
            if self.o.get("coeff"):
                free[pre + "_coefficients"] = 2 * (len(self.o["modes"]) if self.o.get("modes") else self.o["n"])

    def ref(self, psr, params, acc):
        o = self.o
        Fs, ph = [], []
        for k, m in masks(o.get("sel"), psr).items():
            pre = join(psr.name, self.nm(), k)
            F0, ff = fourier(
                psr.toas[m], o["n"], self.p.get("span", pre, params) if o.get("basis") == "span" else o.get("T"), o.get("modes"), bool(o.get("logf")), o.get("fmin"), o.get("fmax")
            )
            nu = psr.freqs[m]
            basis = o.get("basis", "red")
            if basis == "dm":
                F0 = F0 * ((o.get("fref", 1400) / nu) ** 2)[:, None]
            elif basis == "dmtn":
                F0 = F0 * ((1400 / nu) ** 2 * np.sqrt(12) * np.pi / 1400.0**2 / 2.41e-4)[:, None]
            elif basis == "chrom":
                ix = self.p.get("idx", pre, params) if o.get("vidx") else o.get("idx", 4)
                F0 = F0 * ((1400 / nu) ** ix)[:, None]
            elif basis == "gate":
                F0 = gate_ref(psr.toas[m], F0, self.p.get("gate", pre, params))
            F = np.zeros((acc.n, F0.shape[1]))
            F[m] = F0
            if o.get("coeff"):
                acc.delay += F @ np.atleast_1d(params[pre + "_coefficients"])
            else:
                Fs.append(F)
                ph.append(spectrum_ref(o, self.p, pre, ff, params))
        if Fs:
            phi = np.concatenate(ph) if ph[0].ndim == 1 else sl.block_diag(*ph)
            acc.gps.append((join(psr.name, self.nm()), np.hstack(Fs), phi))


class Kernel(Comp):
    """Squared-exponential time-domain kernel on a linear interpolation basis (dense Phi)."""

    def build(self):
        from enterprise.signals import gp_signals
        from enterprise.signals.parameter import function

        dt = self.o.get("dt", 300.0) * DAY

        @function
        def interp_basis(toas, dt=dt):
            return linear_interp(toas, dt)

        @function
        def se_kernel(nodes, log10_sigma=-7, log10_lam=2):
            return se(nodes, log10_sigma, log10_lam)

        return gp_signals.BasisGP(
            se_kernel(log10_sigma=self.p.make("log10_sigma"), log10_lam=self.p.make("log10_lam")),
            interp_basis(),
            coefficients=bool(self.o.get("coeff")),
            combine=self.o.get("combine", True),
            selection=make_selection(self.o.get("sel")),
            name=self.o.get("name", "se"),
        )

    def names(self, psr, free, const):
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", "se"), k)
            self.p.declare("log10_sigma", pre, None, free, const)
            self.p.declare("log10_lam", pre, None, free, const)
            if self.o.get("coeff"):
                free[pre + "_coefficients"] = linear_interp(psr.toas[m], self.o.get("dt", 300.0) * DAY)[0].shape[1]

    def ref(self, psr, params, acc):
        Fs, ph = [], []
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", "se"), k)
            F0, x = linear_interp(psr.toas[m], self.o.get("dt", 300.0) * DAY)
            F = np.zeros((acc.n, F0.shape[1]))
            F[m] = F0
            if self.o.get("coeff"):
                acc.delay += F @ np.atleast_1d(params[pre + "_coefficients"])
            else:
                Fs.append(F)
                ph.append(se(x, self.p.get("log10_sigma", pre, params), self.p.get("log10_lam", pre, params)))
        if Fs:
            acc.gps.append((join(psr.name, self.o.get("name", "se")), np.hstack(Fs), sl.block_diag(*ph)))


def linear_interp(toas, dt):
    """Hat functions on a regular grid, without the ones that are zero everywhere."""
    x0 = min(toas)
    n = int(np.floor((max(toas) - x0) / dt)) + 2
    x = x0 + dt * np.arange(n)
    H = np.maximum(0.0, 1.0 - np.abs(np.asarray(toas)[:, None] - x[None, :]) / dt)
    keep = H.sum(axis=0) != 0
    return H[:, keep], x[keep]


def se(x, log10_sigma, log10_lam):
    d = (x[:, None] - x[None, :]) / (10**log10_lam * DAY)
    return 10 ** (2 * log10_sigma) * (np.exp(-0.5 * d**2) + 1e-3 * np.eye(len(x)))


class Common(Comp):
    """Common Fourier GP with an overlap reduction function."""

    def nm(self):
        return self.o.get("name", "gw")

    def build(self):
        from enterprise.signals import gp_signals, utils, gp_bases
        from enterprise.signals.parameter import function

        o = self.o
        spec = spectrum_function(o, self.p)

        @function
        def par_orf(pos1, pos2, rho_orf=0.5):
            return 1.0 if np.all(pos1 == pos2) else rho_orf * np.dot(pos1, pos2)

        orf = {
            "hd": utils.hd_orf,
            "mono": utils.monopole_orf,
            "dip": utils.dipole_orf,
        }
        orf = par_orf(rho_orf=self.p.make("rho_orf")) if o.get("orf") == "par" else orf[o.get("orf", "hd")]()
        basis = o.get("basis", "red")
        if basis == "red":
            return gp_signals.FourierBasisCommonGP(
                spec,
                orf,
                coefficients=bool(o.get("coeff")),
                combine=o.get("combine", True),
                components=o["n"],
                Tspan=o.get("T"),
                modes=o.get("modes"),
                name=self.nm(),
            )
        if basis == "dm":
            b = gp_bases.createfourierdesignmatrix_dm(nmodes=o["n"], Tspan=o.get("T"))
        elif basis == "chrom":
            b = gp_bases.createfourierdesignmatrix_chromatic(nmodes=o["n"], Tspan=o.get("T"), idx=self.p.make("idx"))
        return gp_signals.BasisCommonGP(
            spec, b, orf, coefficients=bool(o.get("coeff")), combine=o.get("combine", True), name=self.nm()
        )

    def names(self, psr, free, const):
        spectrum_names(self.o, self.p, self.nm(), free, const)
        if self.o.get("orf") == "par":
            self.p.declare("rho_orf", self.nm(), None, free, const)
        if self.o.get("basis") == "chrom":
            self.p.declare("idx", join(psr.name, self.nm()), None, free, const)
        if self.o.get("coeff"):
            free[join(psr.name, self.nm()) + "_coefficients"] = 2 * self.o["n"]

    def ref(self, psr, params, acc):
        o = self.o
        F, ff = fourier(psr.toas, o["n"], o.get("T"), o.get("modes"))
        if o.get("basis") == "dm":
            F = F * ((1400 / psr.freqs) ** 2)[:, None]
        elif o.get("basis") == "chrom":
            F = F * ((1400 / psr.freqs) ** self.p.get("idx", join(psr.name, self.nm()), params))[:, None]
        if o.get("coeff"):
            acc.delay += F @ np.atleast_1d(params[join(psr.name, self.nm()) + "_coefficients"])
            return
        phi = spectrum_ref(o, self.p, self.nm(), ff, params)
        extra = self.p.get("rho_orf", self.nm(), params) if o.get("orf") == "par" else None
        acc.common.append((self.nm(), F, phi, o.get("orf", "hd"), extra))


class Wave(Comp):
    """Deterministic signal: sinusoid with amplitude and phase, optionally per selection."""

    def build(self):
        from enterprise.signals import deterministic_signals
        from enterprise.signals.parameter import function

        @function
        def wave(toas, freqs, amp=1e-6, phase=0.0):
            return wave_ref(toas, freqs, amp, phase)

        return deterministic_signals.Deterministic(
            wave(amp=self.p.make("amp"), phase=self.p.make("phase")),
            selection=make_selection(self.o.get("sel")),
            name=self.o.get("name", "wave"),
        )

    def names(self, psr, free, const):
        for k in masks(self.o.get("sel"), psr):
            pre = join(psr.name, self.o.get("name", "wave"), k)
            self.p.declare("amp", pre, None, free, const)
            self.p.declare("phase", pre, None, free, const)

    def ref(self, psr, params, acc):
        for k, m in masks(self.o.get("sel"), psr).items():
            pre = join(psr.name, self.o.get("name", "wave"), k)
            acc.delay[m] += wave_ref(
                psr.toas[m], psr.freqs[m], self.p.get("amp", pre, params), self.p.get("phase", pre, params)
            )


def wave_ref(toas, freqs, amp, phase):
    # depends on the first selected TOA, so that masking too late is visible
    return amp * np.sin(2 * np.pi * (toas - toas[0]) / (231.7 * DAY) + phase) * (1000.0 / freqs)


class Extra(Comp):
    """A signal that only adds a term to the log likelihood (e.g. a measurement of its parameter)."""

    def build(self):
        from enterprise.signals import signal_base

        name, par = self.o.get("name", "extra"), self.p.make("amp")

        class ExtraTerm(signal_base.Signal):
            signal_type = "extra term"
            signal_name = name
            signal_id = name

            def __init__(self, psr):
                super(ExtraTerm, self).__init__(psr)
                self.name = psr.name + "_" + name
                p = par(self.name + "_amp") if isinstance(par, type) else par
                self._params = {p.name: p}
                self._par = p.name

            def get_logsignalprior(self, params):
                return extra_ref(self.get(self._par, params))

        return ExtraTerm

    def names(self, psr, free, const):
        self.p.declare("amp", join(psr.name, self.o.get("name", "extra")), None, free, const)

    def ref(self, psr, params, acc):
        acc.extra += extra_ref(self.p.get("amp", join(psr.name, self.o.get("name", "extra")), params))


def extra_ref(amp):
    return -0.5 * ((amp - 3e-7) / 1.3e-6) ** 2 - 2.5


class PhysEphem(Comp):
    """Physical ephemeris (no reference here: see C20)."""

    def build(self):
        from enterprise.signals import deterministic_signals

        return deterministic_signals.PhysicalEphemerisSignal(**self.o.get("kw", {}))


class PhysEphemGP(Comp):
    def build(self):
        from enterprise.signals import gp_signals

        return gp_signals.FourierBasisCommonGP_physicalephem(coefficients=bool(self.o.get("coeff")), **self.o.get("kw", {}))


class Wideband(Comp):
    """Wideband timing model (reference in C18)."""

    def build(self):
        from enterprise.signals import gp_signals

        return gp_signals.WidebandTimingModel(
            dmefac=self.p.make("dmefac"),
            log10_dmequad=self.p.make("log10_dmequad"),
            dmjump=self.p.make("dmjump") if self.o.get("jsel", self.o.get("sel")) else None,
            selection=make_selection(self.o.get("sel")),
            dmjump_selection=make_selection(self.o.get("jsel", self.o.get("sel"))),
            **self.o.get("kw", {})
        )


KINDS = {
    "phys": PhysEphem,
    "physgp": PhysEphemGP,
    "wb": Wideband,
    "mn": MeasNoise,
    "tneq": TNEquad,
    "ecorr": EcorrKernel,
    "becorr": EcorrBasis,
    "tm": Timing,
    "red": Fourier,
    "se": Kernel,
    "gw": Common,
    "wave": Wave,
    "extra": Extra,
}


class Model(object):
    """A list of components applied to a list of pulsars."""

    def __init__(self, comps, psrs):
        self.comps = [KINDS[k](dict(o)) for k, o in comps]
        self.psrs = psrs
        reg = {}
        for c in self.comps:
            c.p.reg = reg

    def applies(self, c, i):
        return c.o.get("psrs") is None or i in c.o["psrs"]

    def metamodel(self, i=0, order=None):
        """Sum of the signals that apply to pulsar number i (in the given order of components)."""
        from enterprise.signals import signal_base

        comps = self.comps if order is None else [self.comps[k] for k in order]
        sigs = [c.signal() for c in comps if self.applies(c, i)]
        if len(sigs) == 1:
            return signal_base.SignalCollection(sigs)
        s = sigs[0]
        for t in sigs[1:]:
            s = s + t
        return s

    def pta(self, lnlikelihood=None, order=None):
        from enterprise.signals import signal_base

        kw = {} if lnlikelihood is None else {"lnlikelihood": lnlikelihood}
        return signal_base.PTA([self.metamodel(i, order)(p) for i, p in enumerate(self.psrs)], **kw)

    def names(self):
        """({name: size} of the free parameters, same for the constants)"""
        free, const = {}, {}
        for i, psr in enumerate(self.psrs):
            for c in self.comps:
                if self.applies(c, i):
                    c.names(psr, free, const)
        return free, const

    def accs(self, params):
        ret = []
        for i, psr in enumerate(self.psrs):
            acc = Acc(psr)
            for c in self.comps:
                if self.applies(c, i):
                    c.ref(psr, params, acc)
            ret.append(acc)
        return ret


def same_pos(p, q):
    return bool(np.all(p.pos == q.pos))


def joint_cov(accs):
    """Dense covariance of all the TOAs of all the pulsars (without the improper timing model)."""
    off = np.concatenate([[0], np.cumsum([a.n for a in accs])])
    C = np.zeros((off[-1], off[-1]))
    for i, a in enumerate(accs):
        s = slice(off[i], off[i + 1])
        C[s, s] += np.diag(a.N) + a.K
        for _, F, phi in a.gps:
            C[s, s] += (F * phi) @ F.T if phi.ndim == 1 else F @ phi @ F.T
    for i, a in enumerate(accs):
        for j, b in enumerate(accs):
            for ta, Fa, pa, orf, ex in a.common:
                for tb, Fb, pb, _, _ in b.common:
                    if ta != tb:
                        continue
                    o = orf_value(orf, i, j, a.psr.pos, b.psr.pos, i == j or same_pos(a.psr, b.psr), ex)
                    blk = (Fa * pa) @ Fb.T if pa.ndim == 1 else Fa @ pa @ Fb.T
                    C[off[i] : off[i + 1], off[j] : off[j + 1]] += o * blk
    return C, off


def lnlike(accs):
    """Gaussian log likelihood with timing model marginalized over N(0, 1e40); no 2 pi terms."""
    C, off = joint_cov(accs)
    n = off[-1]
    r = np.concatenate([a.psr.residuals - a.delay for a in accs])
    # scale to unit variances
    s = np.sqrt(np.diag(C))
    R = C / s[:, None] / s[None, :]
    L = np.linalg.cholesky(R)
    ld = 2 * np.sum(np.log(np.diag(L))) + 2 * np.sum(np.log(s))
    y = sl.solve_triangular(L, r / s, lower=True)
    Ms = []
    p = 0
    for i, a in enumerate(accs):
        for M in a.M:
            big = np.zeros((n, M.shape[1]))
            big[off[i] : off[i + 1]] = M
            Ms.append(big)
            p += M.shape[1]
    if p:
        M = np.hstack(Ms)
        Z = sl.solve_triangular(L, M / s[:, None], lower=True)
        Q, Rq = np.linalg.qr(Z)
        y = y - Q @ (Q.T @ y)
        y = y - Q @ (Q.T @ y)
        ld += 2 * np.sum(np.log(np.abs(np.diag(Rq)))) + p * np.log(1e40)
    return -0.5 * float(y @ y) - 0.5 * ld + sum(a.extra for a in accs)


def close(a, b, rtol=1e-8, atol=0.0):
    a, b = np.asarray(a, dtype="d"), np.asarray(b, dtype="d")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))) and bool(
        np.all(np.isfinite(a) == np.isfinite(b))
    )


def deviations(base, axes, maxdev):
    """All configurations that differ from `base` in at most `maxdev` axes, fewest deviations first."""
    import itertools

    names = list(axes)
    for d in range(maxdev + 1):
        for combo in itertools.combinations(names, d):
            for vals in itertools.product(*[[v for v in axes[a] if v != base[a]] for a in combo]):
                cfg = dict(base)
                cfg.update(zip(combo, vals))
                yield cfg
