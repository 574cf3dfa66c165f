"""C22: Fourier and interpolation bases match their definitions."""

import itertools

import numpy as np

from mc import engine, models, psrs, rng

LEVEL = "model_checking"
ASSUMPTIONS = ["4-7 TOAs (105 and, for a slice of the settings, 1310); random phases are uniform draws on [0, 2 pi) (the harness answers the draws), or fixed by a seed and the first TOA"]
BOUNDS = {
    "quick": "7 Fourier bases: full product of modes {1,2,3,5}, span (3), spacing, lower and upper limits, explicit modes (5), and per basis reference "
    "frequency, chromatic index, envelope, flags x 4 TOA sets and orders; random phases: all answers over {0, 1/4, 0.9} for up to 3 modes, seeds "
    "{0, 5, 123}; signals: all option pairs; common processes without a span: all ordered arrays of up to 3 out of 5 pulsars with different spans x pulsar asked first; interpolation: all TOA subsets of up to 4 out of 9 lattice points x 7 steps x 3 origins",
    "thorough": "more modes and indices, interpolation subsets up to 6 out of 10",
}

DAY = 86400.0


def pulsars(seed):
    ret = []
    for i, (lay, order, sort) in enumerate([("AB|A|BA|B", "sorted", True), ("A|BB|A", "mix", False), ("AA|B|C|BA", "rev", False), ("A|B|C|B|A", "mix", True), (psrs.long_layout(epochs=40), "mix", True), (psrs.long_layout("BA", 520), "rev", True)]):
        ret.append(psrs.make_psr(psrs.spec(name="J000%d+0001" % (i + 1), layout=lay, order=order, sort=sort, pos=i if i < 5 else [1.1, 0.3]), seed * 5 + i))
    return ret


COMMON = dict(
    nmodes=[1, 2, 3, 5, 30],
    Tspan=[None, 900 * DAY, 2311.5 * DAY],
    logf=[False, True],
    fmin=[None, 3.1e-9],
    fmax=[None, 4.4e-8],
    modes=[None, [1.3e-8], [2e-9, 7.7e-9, 3e-8], np.array([5e-9, 1e-8]), (4e-9, 4e-9)],
)
EXTRA = {
    "red": {},
    "dm": {"fref": [None, 1400, 820.0]},
    "dm_tn": {"fref": [None, 820.0], "idx": [None, 2, 3.7]},
    "env": {"log10_Amp": [None, -6.2], "log10_Q": [None, 2.1], "t0": [None, 53400 * DAY]},
    "chromatic": {"idx": [None, 4, 1.5, -2, 0]},
    "general": {"idx": [None, 2, 3.3], "tndm": [None, True], "flag": [None, ("f", 0), ("B", 1)], "psrTspan": [None, False]},
}

def cases(tier, seed):
    ret = [{"basis": b, "psr": k, "part": [p, 3]} for b in EXTRA for k in range(5) for p in range(3)]
    ret += [{"ephem": 1, "psr": k} for k in range(5)]
    ret += [{"phase": b, "psr": k} for b in ("red", "dm", "dm_tn", "general") for k in range(5)]
    ret += [{"signal": s, "psr": k} for s in ("gp", "common", "ephem", "dm", "chromatic") for k in range(5)]
    # 1310 TOAs: a thin slice of the settings
    ret += [{"basis": b, "psr": 5, "part": [p, 47]} for b in EXTRA for p in (0, 11)]
    ret += [{"ephem": 1, "psr": 5}] + [{"signal": s, "psr": 5} for s in ("gp", "common", "ephem", "dm", "chromatic")]
    n = 9 if tier == "quick" else 10
    ret += [{"interp": [k, o], "lattice": n} for k in range(1, 5 if tier == "quick" else 7) for o in range(3)]
    ret += [{"nodes": o} for o in range(3)]
    ret += [{"span": list(w)} for k in (1, 2, 3) for w in itertools.permutations(range(5), k)]
    return ret


def close(got, want, what, tol=1e-6):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise engine.Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    scale = np.max(np.abs(want)) if want.size else 0.0
    if not np.all(np.abs(got - want) <= tol * scale + 1e-300):
        i = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
        raise engine.Violation("%s: element %s is %r, expected %r" % (what, tuple(int(x) for x in i), got[i], want[i]))


def product(d):
    keys = sorted(d)
    for vals in itertools.product(*[d[k] for k in keys]):
        yield dict(zip(keys, vals))


def sincos(toas, f, phase=None):
    """One element at a time."""
    F = np.zeros((len(toas), 2 * len(f)))
    for i, t in enumerate(toas):
        for k, fk in enumerate(f):
            x = 2 * np.pi * t * fk + (0.0 if phase is None else phase[k])
            F[i, 2 * k], F[i, 2 * k + 1] = np.sin(x), np.cos(x)
    return F


def frequencies(toas, o):
    if o["modes"] is not None:
        return [float(m) for m in o["modes"]]
    T = o["Tspan"] if o["Tspan"] is not None else max(toas) - min(toas)
    return list(models.fourier(np.array([0.0]), o["nmodes"], T, None, o["logf"], o["fmin"], o["fmax"])[1][::2])


def envelope(name, psr, o):
    toas, freqs = psr.toas, psr.freqs
    n = len(toas)
    if name == "dm":
        return np.array([((o["fref"] or 1400.0) / f) ** 2 for f in freqs])
    if name == "dm_tn":
        idx = 2 if o["idx"] is None else o["idx"]
        return np.array([((o["fref"] or 1400.0) / f) ** idx for f in freqs]) * np.sqrt(12.0) * np.pi / (1400.0**2 * 2.41e-4)
    if name == "env":
        A = 10.0 ** (-7 if o["log10_Amp"] is None else o["log10_Amp"])
        Q = 300.0 if o["log10_Q"] is None else 10.0 ** o["log10_Q"]
        t0 = 53000 * DAY if o["t0"] is None else o["t0"]
        return np.array([A * np.exp(-(((t - t0) / DAY / Q) ** 2) / 2) for t in toas])
    if name == "chromatic":
        idx = 4 if o["idx"] is None else o["idx"]
        return np.array([(1400.0 / f) ** idx for f in freqs])
    if name == "general":
        e = np.ones(n)
        if o["idx"] is not None:
            e = np.array([(1400.0 / f) ** o["idx"] for f in freqs])
            if o["tndm"]:
                e = e * np.sqrt(12.0) * np.pi / (1400.0**2 * 2.41e-4)
        if o["flag"]:
            e = e * np.array([str(v) == o["flag"][1] for v in psr.flags[o["flag"][0]]])
        return e
    return np.ones(n)


def call(fn, psr, kw, how):
    if how == 0:
        return fn(**kw)("J_b", psr=psr)(params={})
    return fn(**kw)("J_b", psr=psr)(params={}, mask=np.ones(len(psr.toas), bool))


def run_basis(desc, seed):
    from enterprise.signals import gp_bases

    name = desc["basis"]
    psr = pulsars(seed)[desc["psr"]]
    fn = getattr(gp_bases, "createfourierdesignmatrix_" + name)
    n, out = 0, []
    for ix, x in enumerate(product(EXTRA[name])):
        for ic, c in enumerate(product(COMMON)):
            if (ix + ic) % desc["part"][1] != desc["part"][0]:
                continue
            if c["modes"] is not None and (c["logf"] or c["fmin"] or c["nmodes"] > 2) and ix:
                continue  # explicit modes override the others: seen with the first setting
            o = dict(c, **x)
            kw = {k: v for k, v in o.items() if k != "flag" and v is not None}
            if name == "general":
                if o["flag"]:
                    fl, k = o["flag"]
                    vals = sorted(set(str(v) for v in psr.flags[fl]))
                    o["flag"] = (fl, vals[k % len(vals)])
                    kw["flagname"], kw["flagval"] = o["flag"]
                if o["flag"] and o["psrTspan"] is False:
                    sel = psr.toas[[str(v) == o["flag"][1] for v in psr.flags[o["flag"][0]]]]
                    if max(sel) - min(sel) < DAY:
                        continue
                    o["Tspan"] = max(sel) - min(sel)
            f = frequencies(psr.toas, o)
            F, ff = call(fn, psr, kw, n % 2)
            close(ff, np.repeat(f, 2), "frequencies of %s(%s)" % (name, kw), 1e-11)
            close(F, sincos(psr.toas, f) * envelope(name, psr, o)[:, None], "%s(%s) for pulsar %d" % (name, kw, desc["psr"]))
            n += 1
        out.append(engine.outcome_hash(F))
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": out}


def ephem_ref(psr, f):
    F = np.zeros((len(psr.toas), 6 * len(f)))
    for k, fk in enumerate(f):
        for a in range(3):
            F[:, 6 * k + a] = np.sin(2 * np.pi * fk * psr.toas) * psr.pos[a]
            F[:, 6 * k + 3 + a] = np.cos(2 * np.pi * fk * psr.toas) * psr.pos[a]
    return F


def run_ephem(desc, seed):
    from enterprise.signals import gp_bases

    psr, n = pulsars(seed)[desc["psr"]], 0
    for nm in (1, 2, 3, 6):
        for T in (None, 900 * DAY, 2311.5 * DAY):
            F, ff = gp_bases.createfourierdesignmatrix_ephem(**({"nmodes": nm} if T is None else {"nmodes": nm, "Tspan": T}))("J_b", psr=psr)(params={})
            f = [(k + 1) / (T or (max(psr.toas) - min(psr.toas))) for k in range(nm)]
            close(ff, np.repeat(f, 6), "frequencies of the ephemeris basis", 1e-11)
            close(F, ephem_ref(psr, f), "ephemeris basis with %d modes" % nm)
            n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [engine.outcome_hash(F)]}


def phases_of(F, toas, f, scale):
    """Common phase of every pair, from its first row."""
    i = int(np.argmax(np.abs(scale)))
    return [np.arctan2(F[i, 2 * k] / scale[i], F[i, 2 * k + 1] / scale[i]) - 2 * np.pi * toas[i] * fk for k, fk in enumerate(f)]


def run_phase(desc, seed):
    from enterprise.signals import gp_bases

    name, n = desc["phase"], 0
    ps = pulsars(seed)
    psr = ps[desc["psr"]]
    fn = getattr(gp_bases, "createfourierdesignmatrix_" + name)
    o = {k: None for k in EXTRA[name]}
    env = envelope(name, psr, o)
    for nm in (1, 2, 3):
        for modes in (None, [3e-9, 8e-9, 1e-8][:nm]):
            c = dict(nmodes=7 if modes else nm, Tspan=1500 * DAY, logf=False, fmin=None, fmax=None, modes=modes)
            f = frequencies(psr.toas, c)
            kw = {k: v for k, v in c.items() if v is not None}
            for u in itertools.product((0.0, 0.25, 0.9), repeat=nm):
                with rng.controlled(uniforms=u):
                    F, ff = fn(pshift=True, **kw)("J_b", psr=psr)(params={})
                close(ff, np.repeat(f, 2), "frequencies with phase shift", 1e-11)
                close(F, sincos(psr.toas, f, [2 * np.pi * x for x in u]) * env[:, None], "%s basis with random phases 2 pi %s" % (name, u))
                n += 1
            if name in ("red", "general"):
                seen = {}
                for pseed in (0, 5, 123, 5.0):
                    for pshift in (False, True):
                        for state in (1, 2):
                            np.random.seed(state)
                            F, ff = fn(pshift=pshift, pseed=pseed, **kw)("J_b", psr=psr)(params={})
                            ph = phases_of(F, psr.toas, f, env)
                            close(F, sincos(psr.toas, f, ph) * env[:, None], "%s basis with seed %s: a common phase per pair" % (name, pseed))
                            key = int(pseed)
                            if key in seen and not np.array_equal(seen[key], F):
                                raise engine.Violation("phases for seed %s are not reproducible (%s)" % (pseed, name))
                            seen[key] = F
                            n += 1
                if np.allclose(seen[0], seen[5], atol=1e-9 * np.max(np.abs(env))) or np.allclose(seen[123], seen[5], atol=1e-9 * np.max(np.abs(env))):
                    raise engine.Violation("different seeds give the same phases")
                if np.allclose(seen[0], sincos(psr.toas, f) * env[:, None]):
                    raise engine.Violation("seed 0 gives no phase shift")
                other = [p for p in ps if abs(p.toas[0] - psr.toas[0]) > 100][0]
                G, _ = fn(pseed=5, **kw)("J_b", psr=other)(params={})
                if np.allclose(np.exp(1j * np.array(phases_of(G, other.toas, f, envelope(name, other, o)))), np.exp(1j * np.array(phases_of(seen[5], psr.toas, f, env))), atol=1e-6):
                    raise engine.Violation("one seed gives the same phases for pulsars with different first TOAs")
                n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [name]}


def run_signal(desc, seed):
    from enterprise.signals import gp_priors, gp_signals, signal_base, utils

    psr, n = pulsars(seed)[desc["psr"]], 0
    kind = desc["signal"]
    pl = gp_priors.powerlaw(log10_A=-14.0, gamma=3.0)
    opts = dict(COMMON, modes=[None, (1.3e-8,), (2e-9, 7.7e-9, 3e-8)], sel=["none", "backend", "band", "index"] if kind in ("gp", "dm", "chromatic") else ["none"], combine=[True, False])
    base = {k: v[0] for k, v in opts.items()}
    base["Tspan"] = 900 * DAY
    out = []
    for o in models.deviations(base, opts, 2):
        o = dict(o)
        if kind in ("dm", "chromatic"):
            o["combine"] = True
        ms = models.masks(o["sel"], psr)
        if o["Tspan"] is None and any(m.sum() < 2 or np.ptp(psr.toas[m]) < DAY for m in ms.values()):
            continue
        kw = {k: v for k, v in o.items() if k not in ("sel", "nmodes", "combine") and v is not None}
        env = np.ones(len(psr.toas))
        if kind == "gp":
            cls = gp_signals.FourierBasisGP(pl, components=o["nmodes"], selection=models.make_selection(o["sel"]), combine=o["combine"], **kw)
        elif kind == "common":
            cls = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=o["nmodes"], combine=o["combine"], **kw)
        elif kind == "ephem":
            if o["modes"] is not None or o["logf"] or o["fmin"] or o["fmax"] or o["Tspan"] is None:
                continue
            cls = gp_signals.FourierBasisCommonGP_ephem(gp_priors.powerlaw(log10_A=-14.0, gamma=3.0, components=6), o["nmodes"], o["Tspan"])
        else:
            b = getattr(utils, "createfourierdesignmatrix_" + kind)(nmodes=o["nmodes"], **kw)
            cls = gp_signals.BasisGP(pl, b, selection=models.make_selection(o["sel"]))
            env = (1400.0 / psr.freqs) ** {"dm": 2, "chromatic": 4}[kind]
        sc = signal_base.SignalCollection([cls])(psr)
        F = sc.get_basis({})
        S = signal_base.PTA([sc]).get_phi({})[0]
        S = np.diag(S) if np.ndim(S) == 2 else np.asarray(S)
        want, phi = np.zeros((len(psr.toas), 0)), []
        for k, m in ms.items():
            f = frequencies(psr.toas[m], o)
            B = ephem_ref(psr, f) if kind == "ephem" else sincos(psr.toas, f)
            B[~m] = 0.0
            c = 6 if kind == "ephem" else 2
            want = np.hstack([want, B * env[:, None]])
            phi += list(np.repeat([10.0**-28 / (12 * np.pi**2) * (x * models.YR) ** -3.0 * models.YR**3 * w for x, w in zip(f, np.diff([0] + list(f)))], c))
        # equal columns are combined: compare the covariance they describe
        close(F @ np.diag(S) @ F.T, (want * np.array(phi)) @ want.T, "covariance of %s with %s" % (kind, o), 1.5e-5)
        if len(set(map(tuple, np.round(want.T, 9)))) == want.shape[1]:
            if F.shape != want.shape:
                raise engine.Violation("%d basis columns, expected %d (%s, %s)" % (F.shape[1], want.shape[1], kind, o))
            left = list(range(want.shape[1]))
            for j in range(F.shape[1]):
                k = [k for k in left if np.max(np.abs(F[:, j] - want[:, k])) < 1e-6]
                if not k:
                    raise engine.Violation("unexpected basis column %d of %s with %s" % (j, kind, o))
                left.remove(k[0])
        n += 1
        out.append(engine.outcome_hash(F))
    # random phases reach the basis
    if kind in ("gp", "common"):
        for nm in (1, 2):
            for u in itertools.product((0.0, 0.25, 0.9), repeat=nm):
                with rng.controlled(uniforms=u):
                    if kind == "gp":
                        cls = gp_signals.FourierBasisGP(pl, components=nm, Tspan=900 * DAY, pshift=True)
                    else:
                        cls = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=nm, Tspan=900 * DAY, pshift=True)
                    F = signal_base.SignalCollection([cls])(psr).get_basis({})
                f = [(k + 1) / (900 * DAY) for k in range(nm)]
                close(F, sincos(psr.toas, f, [2 * np.pi * x for x in u]), "%s basis with random phases" % kind)
                n += 1
            Fs = []
            for pseed in (3, 3, 4):
                np.random.seed(n)
                kw = dict(components=nm, Tspan=900 * DAY, pseed=pseed)
                cls = gp_signals.FourierBasisGP(pl, **kw) if kind == "gp" else gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), **kw)
                Fs.append(signal_base.SignalCollection([cls])(psr).get_basis({}))
                n += 1
            if not np.array_equal(Fs[0], Fs[1]) or np.allclose(Fs[0], Fs[2]):
                raise engine.Violation("phase seed does not determine the basis (%s)" % kind)
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": out}


def run_span(desc, seed):
    """A common process without a span covers all pulsars, in whatever order they come and whichever is asked first."""
    from enterprise.signals import gp_priors, gp_signals, signal_base, utils

    n, out = 0, []
    for asked in range(len(desc["span"])):
        for evaluate in (False, True):
            for kw in ({}, {"combine": False}, {"logf": True, "fmin": 3.1e-9}, {"fmax": 4.4e-8}):
                ps = pulsars(seed)
                for i, p in enumerate(ps[:5]):  # each starts and ends elsewhere
                    p._toas = p._toas + (400.0, -300.0, 0.0, 900.0, 77.0)[i] * DAY
                ps = [ps[i] for i in desc["span"]]
                T = max(max(p.toas) for p in ps) - min(min(p.toas) for p in ps)
                cls = gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=-14.0, gamma=3.0), utils.hd_orf(), components=3, **kw)
                scs = [signal_base.SignalCollection([cls])(p) for p in ps]
                pta = signal_base.PTA(scs)
                if evaluate:
                    pta.get_phi({})
                else:
                    scs[asked].get_basis({})
                f = frequencies(None, dict(dict.fromkeys(("modes", "logf", "fmin", "fmax")), nmodes=3, **dict(kw, Tspan=T)))
                for i in [asked] + list(range(len(ps))):
                    close(pta.get_basis({})[i], sincos(ps[i].toas, f), "basis of pulsar %d of %d of a common process without a span (%s)" % (i, len(ps), kw))
                n += 1
                out.append(engine.outcome_hash(np.array(f)))
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": out}


# ---------------------------------------------------------------- interpolation

LATTICE = [0.0, 0.5, 1.0, 1.25, 2.0, 2.7, 4.0, 7.3, 9.0, 12.5]
STEPS = [0.5, 1.0, 2.0, 0.3, 3.3, 9.0, 40.0]
ORIGINS = [53000 * DAY, 53005.37 * DAY, 0.0]


def interp_ref(toas, dt):
    t0, n = min(toas), int(np.floor((max(toas) - min(toas)) / dt + 1e-9)) + 2
    nodes = t0 + dt * np.arange(n)
    H = np.array([[max(0.0, 1.0 - abs(t - x) / dt) for x in nodes] for t in toas])
    H[H < 1e-9] = 0.0
    keep = H.sum(axis=0) > 0
    return H[:, keep], nodes[keep]


def check_interp(toas, dt, what):
    from enterprise.signals import utils

    H, x = interp_ref(toas, dt)
    M, y = utils.linear_interp_basis(np.array(toas), dt=dt)
    # nodes that touch the TOAs by roundoff only
    keep = np.max(np.abs(M), axis=0) > 1e-7 if M.size else np.zeros(M.shape[1], bool)
    close(y[keep], x, "nodes for %s" % what, 1e-9)
    close(M[:, keep], H, "interpolation basis for %s" % what, 2e-7)
    if np.any(np.abs(M.sum(axis=1) - 1) > 1e-6):
        raise engine.Violation("interpolation weights do not add to one for %s: %s" % (what, M.sum(axis=1)))


def run_interp(desc, seed):
    k, o = desc["interp"]
    n = 0
    for sub in itertools.combinations(LATTICE[: desc["lattice"]], k):
        for order in ("up", "down", "mix"):
            s = sorted(sub)
            s = s if order == "up" else s[::-1] if order == "down" else s[1::2] + s[::2]
            for rep in (0, 1):
                t = s + [s[len(s) // 2]] * rep
                if len(set(t)) < 2:
                    continue
                toas = [ORIGINS[o] + 30 * DAY * x for x in t]
                for dt in STEPS:
                    check_interp(toas, 30 * DAY * dt, "TOAs %s and step %s" % (t, dt))
                    n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(desc["interp"])]}


def run_nodes(desc, seed):
    """The last TOA falls on a node, up to roundoff."""
    n = 0
    for step in (0.1, 0.3, 1.0 / 3, 1.0, 7.0, 30.0, 30.4375, 0.7):
        for k in range(1, 60):
            t0 = ORIGINS[desc["nodes"]]
            dt = step * DAY
            for last in (t0 + k * dt, t0 + dt * k + 1e-6):
                check_interp([t0, t0 + 0.4 * dt, last], dt, "last TOA on node %d with step %s" % (k, step))
                n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": ["nodes"]}


def run_case(desc, seed):
    for k in ("basis", "ephem", "phase", "signal", "interp", "nodes", "span"):
        if k in desc:
            return globals()["run_" + k](desc, seed)
