"""C20: deterministic signals add exactly their waveform; the physical ephemeris follows its definition."""

import itertools
import os

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "TOAs within the tabulated range of the Jupiter and Saturn orbits; no two TOAs coincide",
    "the orbit tables in enterprise/datafiles/ephemeris are data, not judged",
]
BOUNDS = {
    "quick": "ephemeris: all 128 subsets of the seven perturbations x 4 orbit models x epoch averaging on/off x 3 pulsars (also unsorted) and a slice of the subsets on one of 1310 TOAs, and a slice of the subsets on one of 1310 TOAs, at 4 "
    "parameter points, all pairs of ways to give each perturbation; ephemeris GP: all 128 subsets x 4 models; rotations: all angle triples over "
    "5 angles; deterministic signals: all models of 1-2 signals over 5 waveforms x 9 selections x 5 parameter kinds within 2 deviations",
    "thorough": "6 pulsars, 3 deviations, up to 3 signals",
}

PARTS = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass", "jup_orb_elements", "sat_orb_elements"]
SIGMAS = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
              d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5)
MODELS = ["setIII", "orbel", "orbel-v2", "setIII_1980"]
LAYS = [
    ("AB|A|BA|B", "sorted", True),
    ("ABAB|AABB|A", "mix", True),
    ("AB|A|BA|B", "mix", False),
    ("A|B|A|A", "rev", False),
    ("ABABA|A", "mix", False),
    ("A|AAAA|B", "rev", True),
    (psrs.long_layout(epochs=40), "mix", True),
    (psrs.long_layout(epochs=520), "mix", False),
]
ARC = np.pi / 180 / 3600


def pulsar(k, seed, i=0):
    lay, order, sort = LAYS[k]
    return psrs.make_psr(psrs.spec(name="J000%d+0001" % (i + 1), layout=lay, order=order, sort=sort, pos=i), seed * 7 + i)


# ---------------------------------------------------------------- reference


def orbit_tables(model):
    d = os.path.join(engine.REPO, "enterprise", "datafiles", "ephemeris")
    return [np.load(os.path.join(d, f)) for f in ("jupiter-%s-mjd.npy" % model, "jupiter-%s-xyz-svd.npy" % model, "saturn-%s-xyz-svd.npy" % model)]


def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    return {
        "x": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]),
        "y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
        "z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]),
    }[axis]


def obliquity():
    from enterprise import constants as const

    if abs(const.e_ecl - 23.43704 * np.pi / 180) > 1e-4:
        raise engine.Violation("obliquity of the ecliptic is %r" % const.e_ecl)
    return const.e_ecl


def ephem_delay(toas, planets, pos_t, pars, tables):
    """One TOA at a time: change of (Earth - barycenter) . pulsar."""
    times, jup, sat = tables
    R = rot("x", obliquity())
    ret = np.zeros(len(toas))
    for i, t in enumerate(toas):
        mjd = t / 86400.0
        earth = planets[i, 2, :3]
        angle = pars.get("frame_drift_rate", 0.0) * (mjd - 55197.0) / 365.25
        dp = R @ (rot("z", angle) @ (R.T @ earth)) - earth
        for pl, k in (("jupiter", 4), ("saturn", 5), ("uranus", 6), ("neptune", 7)):
            dp = dp + pars.get("d_%s_mass" % pl, 0.0) * planets[i, k, :3]
        for key, mass, tab in (("jup_orb_elements", 0.0009547918983127075, jup), ("sat_orb_elements", 0.00028588567008942334, sat)):
            if key in pars:
                dp = dp + mass * sum(
                    c * np.array([np.interp(mjd, times, tab[e][:, a]) for a in range(3)]) for e, c in enumerate(np.atleast_1d(pars[key]))
                )
        ret[i] = -np.dot(dp, pos_t[i])
    return ret


def epoch_data(psr):
    """Epochs, their mean times, and positions interpolated (in time) to them."""
    ep = models.epochs(psr.toas)
    ave = np.array([np.mean(psr.toas[e]) for e in ep])
    o = np.argsort(psr.toas)
    pl = np.array([[np.interp(ave, psr.toas[o], psr.planetssb[o, j, a]) for a in range(3)] for j in range(9)])
    ps = np.array([np.interp(ave, psr.toas[o], psr.pos_t[o, a]) for a in range(3)])
    return ep, ave, np.transpose(pl, (2, 0, 1)), ps.T


# ---------------------------------------------------------------- cases


def subsets():
    return [s for n in range(8) for s in itertools.combinations(PARTS, n)]


AXES = dict(
    wf=["wave", "atts", "scalar", "quad", "fixed"],
    sel=["none", "backend", "band", "fe", "tel", "half", "index", "cdict", "freqband"],
    pars=["u", "c", "cs", "s", "us"],
    two=["no", "same", "atts", "wave_s", "quad_band"],
    lay=[0, 1, 2, 3, 6],
    npsr=[1, 2],
    nm=["det", "", "a_b"],
)
BASE = {k: v[0] for k, v in AXES.items()}


def cases(tier, seed):
    ret = []
    lays = [0, 1, 2, 6] if tier == "quick" else range(len(LAYS) - 1)
    for m in MODELS:
        for lay in lays:
            for ep in (False, True):
                for part in range(2):
                    ret.append({"phys": m, "lay": lay, "epoch": ep, "part": part})
            ret.append({"gp": m, "lay": lay})
    for ep in (False, True):  # 1310 TOAs: every 16th subset of the parts
        ret.append({"phys": "orbel", "lay": 7, "epoch": ep, "part": 15, "of": 16})
    for a in PARTS:
        ret.append({"how": a})
    ret.append({"rotations": 1})
    cfgs = list(models.deviations(BASE, AXES, 2 if tier == "quick" else 3))
    k = 20
    ret += [{"det": cfgs[i : i + k]} for i in range(0, len(cfgs), k)]
    return ret


def close(got, want, tol, what):
    got, want = np.asarray(got, "d"), np.asarray(want, "d")
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * (1 + 0 * want)):
        raise engine.Violation("%s: got %s, expected %s" % (what, got.ravel()[:5], want.ravel()[:5]))


def points(parts, seed):
    """Parameter points: typical, zero, enlarged, one orbital element at a time."""
    yield {p: models.value(p, 6 if "orb" in p else None, 0, seed) for p in parts}
    yield {p: np.zeros(6) if "orb" in p else 0.0 for p in parts}
    big = {p: models.value(p, 6 if "orb" in p else None, 1, seed) for p in parts}
    yield {p: v * (1e4 if "mass" in p else 1e3 if "frame" in p else 1.0) for p, v in big.items()}
    e = np.zeros(6)
    e[seed % 6] = 0.3
    yield {p: e if "orb" in p else 0.0 for p in parts}


def expected(psr, epoch, pars, tables, ed):
    if not epoch:
        return ephem_delay(psr.toas, psr.planetssb, psr.pos_t, pars, tables)
    ep, ave, pl, ps = ed
    d = ephem_delay(ave, pl, ps, pars, tables)
    ret = np.zeros(len(psr.toas))
    for e, v in zip(ep, d):
        ret[e] = v
    return ret


def run_phys(desc, seed):
    from enterprise.signals import deterministic_signals as ds

    psr = pulsar(desc["lay"], seed)
    tables, ed, n = orbit_tables(desc["phys"]), epoch_data(psr), 0
    for s in subsets()[desc["part"] :: desc.get("of", 2)]:
        kw = {p: p in s for p in PARTS}
        sig = ds.PhysicalEphemerisSignal(model=desc["phys"], use_epoch_toas=desc["epoch"], **kw)(psr)
        want = sorted(s)
        got = sorted(p.name for p in sig.params)
        if got != want:
            raise engine.Violation("parameters %s, expected %s (%s)" % (got, want, kw))
        first = None
        for pars in points(s, seed):
            d = sig.get_delay(pars)
            e = expected(psr, desc["epoch"], pars, tables, ed)
            # mean times of epochs round at 1e-6 s: more epochs, more steep spots between two TOAs
            tol = 2e-12 + 1e-12 * max([0] + [abs(np.max(v)) for v in pars.values()]) + (1e-7 * np.max(np.abs(e)) if "of" in desc else 0.0)
            close(d, e, tol,
                  "ephemeris delay for %s (%s)" % (sorted(s), desc))
            n += 1
            first = d if first is None else first
        close(sig.get_delay({p: v for p, v in next(points(s, seed)).items()}), first, 0, "ephemeris delay when evaluated again")
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [engine.outcome_hash(first)]}


def run_gp(desc, seed):
    from enterprise.signals import gp_signals, signal_base

    psr = pulsar(desc["lay"], seed)
    tables, n = orbit_tables(desc["gp"]), 0
    unit = {}
    for p in PARTS:
        for i in range(6 if "orb" in p else 1):
            c = np.zeros(6)
            c[i] = 1.0
            eps = 1e-7 if "frame" in p else 1.0
            pars = {p: c if "orb" in p else eps}
            unit[p, i] = ephem_delay(psr.toas, psr.planetssb, psr.pos_t, pars, tables) / eps
    for s in subsets():
        if not s:
            continue
        for coeff in (False, True):
            kw = {p: (SIGMAS[p] * (1.0 if k % 2 else 0.7) if p in s else None) for k, p in enumerate(PARTS)}
            cls = gp_signals.FourierBasisCommonGP_physicalephem(model=desc["gp"], coefficients=coeff, **kw)
            sig = cls(psr)
            pta = signal_base.PTA([signal_base.SignalCollection([cls])(psr)])
            cols = [(p, i) for p in PARTS if p in s for i in range(6 if "orb" in p else 1)]
            # the rotation is differentiated at a finite step; the others are limited by the roundoff of the geocenter distance
            tols = [2e-4 if c[0] == "frame_drift_rate" else 3e-6 for c in cols]
            want = np.array([unit[c] * kw[c[0]] for c in cols]).T  # the delay of a unit-variance coefficient
            if coeff:
                nm = psr.name + "_phys_ephem_gp_coefficients"
                if pta.param_names != ["%s_%d" % (nm, i) for i in range(len(cols))] and pta.param_names != [nm]:
                    raise engine.Violation("coefficient parameters are %s for %s" % (pta.param_names, s))
                got, k = [], len(cols)
                for i in range(k):
                    c = np.zeros(k)
                    c[i] = 1.0
                    got.append(pta.get_delay({nm: c})[0])
                got = np.array(got).T
                # the columns carry no prior width here
                w0 = np.array([unit[c] for c in cols]).T
                match(got, w0, "columns of the ephemeris GP with explicit coefficients (%s, %s)" % (desc["gp"], s), tols)
            else:
                F = sig.get_basis({})
                phi = np.asarray(pta.get_phi({})[0])
                phi = np.diag(phi) if phi.ndim == 2 else phi
                if F.shape != (len(psr.toas), len(cols)) or phi.shape != (len(cols),):
                    raise engine.Violation("shapes %s %s for %d perturbations" % (F.shape, phi.shape, len(cols)))
                # only the product of column and prior width is observable
                match(F * np.sqrt(phi / (1.0 + 1e-5)), want, "columns of the ephemeris GP (%s, %s)" % (desc["gp"], s), tols)
            n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [engine.outcome_hash(want)]}


def match(got, want, what, tols):
    """Same columns, in any order."""
    if got.shape != want.shape:
        raise engine.Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    left = list(range(want.shape[1]))
    for j in range(got.shape[1]):
        for k in left:
            scale = np.max(np.abs(want[:, k]))
            if np.max(np.abs(got[:, j] - want[:, k])) <= tols[k] * scale:
                left.remove(k)
                break
        else:
            raise engine.Violation("%s: unexpected column %d %s; expected one of %s" % (what, j, got[:4, j], want[:4, left].T.tolist()[:3]))


WAYS = ["true", "false", "omit", "instance", "class", "constant", "number"]


def run_how(part, seed):
    """Every way to give one perturbation, with every way to give another; signal names; two pulsars."""
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import parameter, signal_base

    ps = [pulsar(1, seed), pulsar(0, seed, 1)]
    defaults = {p: p != "sat_orb_elements" for p in PARTS}
    n = 0
    tables = orbit_tables("setIII")
    for other in PARTS:
        for w1, w2 in itertools.product(WAYS, WAYS):
            if other == part and w1 != w2:
                continue
            ways = {p: "false" for p in PARTS}
            ways.update({part: w1, other: w2})
            for name in ("", "eph"):
                kw, free, const = {}, {}, {}
                for p, w in ways.items():
                    size = 6 if "orb" in p else None
                    val = models.value(p, size, 5, seed)
                    nm = lambda psr: "_".join(x for x in (psr.name, name, p) if x)  # noqa: E731
                    if w == "omit":
                        if defaults[p]:
                            free[p] = [p, p]
                    elif w == "true":
                        kw[p] = True
                        free[p] = [p, p]
                    elif w == "false":
                        kw[p] = False
                    elif w == "instance":
                        lo, hi = models.DOMAIN[p]
                        kw[p] = parameter.Uniform(lo, hi, size=size)("my_" + p)
                        free[p] = ["my_" + p] * 2
                    elif w == "class":
                        lo, hi = models.DOMAIN[p]
                        kw[p] = parameter.Uniform(lo, hi, size=size)
                        free[p] = [nm(x) for x in ps]
                    elif w == "constant":
                        kw[p] = parameter.Constant(val)
                        const[p] = val
                    elif w == "number":
                        kw[p] = val
                        const[p] = val
                cls = ds.PhysicalEphemerisSignal(use_epoch_toas=bool(n % 2), name=name, **kw)
                pta = signal_base.PTA([signal_base.SignalCollection([cls])(x) for x in ps])
                want = sorted(set(x for v in free.values() for x in v))
                got = sorted(set(p.name for p in pta.params))
                if got != want:
                    raise engine.Violation("parameters %s, expected %s (%s)" % (got, want, ways))
                for v in range(2):
                    params = {x: models.value(x, 6 if "orb" in x else None, v, seed) for x in want}
                    d = pta.get_delay(params)
                    for i, psr in enumerate(ps):
                        pars = dict(const)
                        pars.update({p: params[x[i]] for p, x in free.items()})
                        close(d[i], expected(psr, bool(n % 2), pars, tables, epoch_data(psr)), 3e-12,
                              "ephemeris delay of %s for %s (name %r, epoch averaging %s)" % (psr.name, {p: w for p, w in ways.items() if w != "false"}, name, bool(n % 2)))
                n += 1
    return {"states": n, "transitions": 2 * n, "evaluations": 2 * n, "traces": n, "outcomes": [part]}


def run_rotations(seed):
    from enterprise.signals import utils

    n = 0
    angles = [0.0, 0.7, -1.1, np.pi / 2, 3.0]
    rng = np.random.RandomState(seed)
    x = rng.randn(4, 3)
    R = rot("x", obliquity())
    close(utils.ecl2eq_vec(x), np.array([R @ v for v in x]), 1e-13, "ecliptic to equatorial")
    close(utils.eq2ecl_vec(x), np.array([R.T @ v for v in x]), 1e-13, "equatorial to ecliptic")
    close(utils.eq2ecl_vec(utils.ecl2eq_vec(x)), x, 1e-13, "to equatorial and back")
    mjd = np.array([55197.0, 55197.0 + 365.25, 53000.0, 58000.0])
    for ax, ay, az in itertools.product(angles, repeat=3):
        E = rot("x", ax) @ rot("y", ay) @ rot("z", az)
        close(utils.euler_vec(az, ay, ax, 3), np.array([E] * 3), 1e-13, "rotation by angles %s" % [az, ay, ax])
        v = np.array([1.0, -0.3, 0.2, 0.5])
        for which in itertools.product((0, 1), repeat=3):
            args = [a * v if w else a for a, w in zip((az, ay, ax), which)]
            E = [rot("x", np.broadcast_to(args[2], 4)[i]) @ rot("y", np.broadcast_to(args[1], 4)[i]) @ rot("z", np.broadcast_to(args[0], 4)[i]) for i in range(4)]
            close(utils.euler_vec(*args, 4), np.array(E), 1e-13, "rotation by angle vectors")
        for dz in (0.0, 0.2):
            for off in (None, [0.1, 0.2, -0.3]):
                for eq in (False, True):
                    got = utils.ss_framerotate(mjd, x, ax, ay, az, dz, offset=off, equatorial=eq)
                    want = []
                    for m, p in zip(mjd, x):
                        q = R.T @ p if eq else p
                        q = rot("x", ax) @ rot("y", ay) @ rot("z", az + dz * (m - 55197.0) / 365.25) @ q
                        q = q + (0 if off is None else np.array(off))
                        want.append(R @ q if eq else q)
                    close(got, np.array(want), 1e-12, "frame rotation by %s, rate %s, offset %s, equatorial %s" % ([ax, ay, az], dz, off, eq))
                    n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": ["rotations"]}


# ---------------------------------------------------------------- generic deterministic signals


def waveform(kind, pars, name):
    """(enterprise waveform, parameters {name: (kind, size)}, reference(psr, mask, values))"""
    from enterprise.signals import parameter
    from enterprise.signals.parameter import function

    spec = {"wave": ["amp", "phase"], "atts": ["amp"], "scalar": ["amp"], "quad": ["amp"], "fixed": []}[kind]

    @function
    def wave(toas, freqs, amp=1e-6, phase=0.3):
        return amp * np.sin(2 * np.pi * (toas - toas[0]) / (231.7 * 86400) + phase) * (1000.0 / freqs)

    @function
    def atts(toas, pos, theta, phi, pos_t, amp=1e-6):
        return amp * (theta + 2 * phi + pos[0] - 3 * pos[2] + pos_t[:, 1] * len(toas))

    @function
    def scalar(amp=1e-6):
        return amp

    @function
    def quad(stoas, toaerrs, residuals, amp=np.array([1e-6, 2e-6, 0.0])):
        x = (stoas - 4.6e9) / 1e7
        return amp[0] + amp[1] * x + amp[2] * x**2 + 0.1 * toaerrs + 0.01 * np.cumsum(residuals)

    @function
    def fixed(toas):
        return 1e-9 * np.arange(len(toas)) + 1e-8

    fn = {"wave": wave, "atts": atts, "scalar": scalar, "quad": quad, "fixed": fixed}[kind]

    def reference(psr, m, v):
        if kind == "wave":
            return v["amp"] * np.sin(2 * np.pi * (psr.toas[m] - psr.toas[m][0]) / (231.7 * 86400) + v["phase"]) * (1000.0 / psr.freqs[m])
        if kind == "atts":
            return v["amp"] * (psr.theta + 2 * psr.phi + psr.pos[0] - 3 * psr.pos[2] + psr.pos_t[m][:, 1] * m.sum())
        if kind == "scalar":
            return v["amp"] * np.ones(m.sum())
        if kind == "quad":
            x = (psr.stoas[m] - 4.6e9) / 1e7
            a = v["amp"]
            return a[0] + a[1] * x + a[2] * x**2 + 0.1 * psr.toaerrs[m] + 0.01 * np.cumsum(psr.residuals[m])
        return 1e-9 * np.arange(m.sum()) + 1e-8

    kw, how = {}, {}
    for i, p in enumerate(spec):
        size = 3 if kind == "quad" else None
        lo, hi = models.DOMAIN[p]
        w = pars[i % len(pars)]
        if w == "u":
            kw[p] = parameter.Uniform(lo, hi, size=size)
        elif w == "s":
            kw[p] = parameter.Uniform(lo, hi, size=size)("shared_%s_%s" % (kind, p))
        elif w == "c":
            kw[p] = parameter.Constant(models.value(p, size, 77, 0))
        how[p] = (w, size)
    return fn(**kw), how, reference


def run_det(cfg, seed):
    from enterprise.signals import deterministic_signals as ds
    from enterprise.signals import signal_base

    ps = [pulsar(cfg["lay"], seed)] + ([pulsar(0, seed, 1)] if cfg["npsr"] == 2 else [])
    sigs = [(cfg["wf"], cfg["sel"], cfg["pars"], cfg["nm"])]
    if cfg["two"] == "same":
        sigs.append((cfg["wf"], cfg["sel"], cfg["pars"], "second"))
    elif cfg["two"] != "no":
        k, s = {"atts": ("atts", "backend"), "wave_s": ("wave", "half"), "quad_band": ("quad", "band")}[cfg["two"]]
        sigs.append((k, s, "s" if k == "wave" else "u", "other"))
    built = []
    for kind, sel, pars, name in sigs:
        if cfg["two"] == "same" and pars == "s":
            pars = "us"
        wf, how, ref = waveform(kind, pars, name)
        built.append((ds.Deterministic(wf, selection=models.make_selection(sel), name=name), how, ref, sel, name, kind))
    n = 0
    for order in (built, built[::-1]) if len(built) > 1 else (built,):
        model = signal_base.SignalCollection([b[0] for b in order])
        pta = signal_base.PTA([model(p) for p in ps])
        free, where = {}, {}
        for ib, (cls, how, ref, sel, name, kind) in enumerate(order):
            for ip, psr in enumerate(ps):
                for key in models.masks(sel, psr):
                    for p, (w, size) in how.items():
                        nm = "_".join(x for x in (psr.name, name, key, p) if x)
                        if w == "s":
                            nm = "shared_%s_%s" % (kind, p)
                        if w != "c":
                            free[nm] = size
                        where[ib, ip, key, p] = (w, nm, size)
        got = sorted(set(p.name for p in pta.params))
        if got != sorted(free):
            raise engine.Violation("parameters %s, expected %s (%s)" % (got, sorted(free), cfg))
        for v in (0, 1, 0):
            params = models.values(free, v, seed)
            delays = pta.get_delay(params)
            for ip, psr in enumerate(ps):
                want = np.zeros(len(psr.toas))
                for ib, (cls, how, ref, sel, name, kind) in enumerate(order):
                    for key, m in models.masks(sel, psr).items():
                        vals = {}
                        for p in how:
                            w, nm, size = where[ib, ip, key, p]
                            vals[p] = models.value(p, size, 77, 0) if w == "c" else params[nm]
                        want[m] += ref(psr, m, vals)
                close(delays[ip], want, 1e-17 + 1e-9 * np.max(np.abs(want)), "delay of %s at point %d (%s)" % (psr.name, v, cfg))
                n += 1
    return n, delays[0]


def run_case(desc, seed):
    if "phys" in desc:
        return run_phys(desc, seed)
    if "gp" in desc:
        return run_gp(desc, seed)
    if "how" in desc:
        return run_how(desc["how"], seed)
    if "rotations" in desc:
        return run_rotations(seed)
    n, out = 0, []
    for cfg in desc["det"]:
        k, d = run_det(cfg, seed)
        n += k
        out.append(engine.outcome_hash(d))
    return {"states": len(desc["det"]), "transitions": n, "evaluations": n, "traces": len(desc["det"]), "outcomes": out}
