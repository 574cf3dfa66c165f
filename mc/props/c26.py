"""C26: gravitational-wave waveforms follow their defining equations."""

import itertools

import numpy as np

from mc import engine, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "directions closer to the line of sight than 1e-3 rad (but not on it) are not judged: the closed form is ill-conditioned there",
    "binaries far from coalescence; harmonics 1 to nmax-1 are summed",
    "orbits: the sum over harmonics is compared with the quadrupole radiation of a Kepler orbit for eccentricities up to 0.6",
]
BOUNDS = {
    "quick": "antenna patterns: 18 pulsar directions x 74 source directions; bursts: 6 pulsar directions x 26 source directions x 5 polarizations x 9 epochs x 3 TOA orders, "
    "alone and inside a signal; rates: 4 frequencies x 4 masses x 4 mass ratios x 7 eccentricities, as numbers and as arrays; harmonics 1-12 x 7 eccentricities "
    "x 2 amplitude conventions; Kepler orbits: 6 eccentricities x 5 inclinations x 3 periastron angles; waveforms: 5 eccentricities x 5 inclinations x 3 precession rates "
    "x 4 harmonic counts; evolution: 4 eccentricities x 3 frequencies x 3 masses x 3 mass ratios x 3 time grids",
    "thorough": "as quick with 290 source directions and 9 eccentricities up to 0.9",
}

TSUN = 1.327124400e20 / 299792458.0**3
MPC_S = 3.0856775814913673e22 / 299792458.0
DAY = 86400.0
YR = 365.25 * DAY


def sphere(n):
    """Directions on rings, including the poles and the axes."""
    ret = [(0.0, 0.0), (np.pi, 0.0)]
    for i in range(1, n):
        th = np.pi * i / n
        m = 2 * n
        ret += [(th, 2 * np.pi * k / m) for k in range(m)]
    return ret


def vec(theta, phi):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def pattern(pos, th, ph):
    """Antenna pattern from the polarization tensors, in a frame built from the source direction."""
    k = vec(th, ph)  # towards the source
    # east and north vectors at the source
    east = np.array([-np.sin(ph), np.cos(ph), 0.0])
    north = np.array([-np.cos(th) * np.cos(ph), -np.cos(th) * np.sin(ph), np.sin(th)])
    m, n = -east, north
    den = 1.0 - k @ pos
    if den < 1e-12:
        return 0.0, 0.0, k @ pos
    eplus = np.outer(m, m) - np.outer(n, n)
    ecross = np.outer(m, n) + np.outer(n, m)
    return 0.5 * pos @ eplus @ pos / den, 0.5 * pos @ ecross @ pos / den, k @ pos


def close(what, a, b, rtol=1e-10, atol=0.0):
    a, b = np.asarray(a, dtype="d"), np.asarray(b, dtype="d")
    if a.shape != b.shape:
        raise engine.Violation("%s has shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size and not np.all(np.abs(a - b) <= rtol * np.max(np.abs(b)) + atol):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(a), np.abs(a - b), np.inf)), a.shape) if a.ndim else ()
        raise engine.Violation("%s is %r, expected %r%s" % (what, float(a[i]), float(b[i]), " (at %s)" % (tuple(map(int, i)),) if i else ""))


def unchanged(what, arrays, copies):
    for a, c in zip(arrays, copies):
        if not np.array_equal(a, c):
            raise engine.Violation("%s modified its argument %s to %s" % (what, str(c)[:60], str(a)[:60]))


# ---------------------------------------------------------------- antenna pattern and bursts


def run_antenna(desc, seed):
    from enterprise.signals import utils

    rng = np.random.RandomState(seed)
    poss = [vec(t, p) for t, p in sphere(3)]
    for _ in range(4):
        x = rng.randn(3)
        poss.append(x / np.sqrt(x @ x))
    n = 0
    worst = 0.0
    for pos in poss[desc["part"] :: 3]:
        for th, ph in sphere(desc["n"]):
            if 1e-12 < 1 - vec(th, ph) @ pos < 1e-6:
                continue
            p0 = pos.copy()
            for form in (pos, list(pos)):
                fp, fc, mu = utils.create_gw_antenna_pattern(form, th, ph)
                rp, rc, rmu = pattern(pos, th, ph)
                what = "for a pulsar at %s and a source at (%.4f, %.4f)" % (np.round(pos, 4), th, ph)
                close("F+ " + what, fp, rp, 0, 1e-9)
                close("Fx " + what, fc, rc, 0, 1e-9)
                close("cos(mu) " + what, mu, rmu, 0, 1e-12)
            unchanged("the antenna pattern", [pos], [p0])
            if 1 - rmu > 1e-6:
                close("the total response " + what, fp**2 + fc**2, ((1 + rmu) / 2) ** 2, 0, 1e-9)
            n += 1
            worst = max(worst, abs(fp))
    return {"states": n, "transitions": n, "evaluations": 2 * n, "outcomes": [round(worst, 3)]}


BURST_TOAS = np.array([53000.25, 53100.75, 53200.5, 53333.125, 53444.0, 53555.5, 53600.0])


def run_burst(desc, seed):
    from enterprise.signals import deterministic_signals, parameter, utils

    rng = np.random.RandomState(seed)
    order = {"sorted": np.arange(7), "rev": np.arange(7)[::-1], "mix": np.array([3, 0, 6, 1, 5, 2, 4])}[desc["order"]]
    toas = BURST_TOAS[order] * DAY
    t0s = [52000.0, 53000.25, 53050.0, 53200.5, 53300.7, 53444.0, 53599.9, 53600.0, 54000.0]
    poss = [vec(0.3, 0.2), vec(np.pi / 2, 0.0), vec(2.2, 4.0), np.array([0.0, 0.0, 1.0])]
    for _ in range(2):
        x = rng.randn(3)
        poss.append(x / np.sqrt(x @ x))
    n = 0
    for pos in poss:
        for th, ph in sphere(4):
            rp, rc, mu = pattern(pos, th, ph)
            if 1e-12 < 1 - mu < 1e-6:
                continue
            for pol, t0, log10_h in itertools.product((0.0, 0.4, np.pi / 4, 1.9, np.pi), t0s, desc["log10_h"]):
                want = np.zeros(7)
                for i, t in enumerate(toas):
                    if t > t0 * DAY:
                        want[i] = 10.0**log10_h * (rp * np.cos(2 * pol) + rc * np.sin(2 * pol)) * (t - t0 * DAY)
                ta = np.array(t0)
                tc = toas.copy()
                got = utils.bwm_delay(toas, pos, log10_h=log10_h, cos_gwtheta=np.cos(th), gwphi=ph, gwpol=pol, t0=ta if n % 2 else t0)
                unchanged("the burst", [toas, ta], [tc, np.array(t0)])
                what = "burst at %.2f from (%.3f, %.3f), polarization %.3f, in pulsar %s" % (t0, th, ph, pol, np.round(pos, 3))
                close(what, got, want, 1e-8, 1e-9 * 10.0**log10_h * 1e7)
                n += 1
    # defaults, a user-supplied antenna pattern, and use inside a signal
    close("default burst", utils.bwm_delay(toas, poss[0]), utils.bwm_delay(toas, poss[0], log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t0=55000), 1e-12)
    for k, (a, b) in enumerate(((1.0, 0.0), (0.0, 1.0), (0.3, -0.7))):
        seen = []

        def fn(pos, gwtheta, gwphi):
            seen.append((np.array(pos), gwtheta, gwphi))
            return (a, b) if k else (a, b, 99.0)

        got = utils.bwm_delay(toas, poss[2], log10_h=-13.5, cos_gwtheta=0.3, gwphi=1.2, gwpol=0.7, t0=53300.7, antenna_pattern_fn=fn)
        want = 10**-13.5 * (a * np.cos(1.4) + b * np.sin(1.4)) * np.clip(toas - 53300.7 * DAY, 0, None)
        close("burst with a user-supplied pattern", got, want, 1e-10)
        if len(seen) != 1 or not np.allclose(seen[0][0], poss[2]) or abs(seen[0][1] - np.arccos(0.3)) > 1e-12 or seen[0][2] != 1.2:
            raise engine.Violation("the user-supplied pattern was called with %s" % (seen,))
        n += 1
    psr = psrs.make_psr(psrs.spec(layout="AB|A|BA|B", order=desc["order"], tm=["off", "F0"]), seed)
    U = parameter.Uniform
    wf = utils.bwm_delay(log10_h=U(-16, -12), cos_gwtheta=U(-1, 1), gwphi=U(0, 6.28), gwpol=U(0, 3.14), t0=U(53000, 54000)("burst_t0"))
    sig = deterministic_signals.Deterministic(wf, name="bwm")(psr)
    nm = psr.name + "_bwm_"
    for cth, ph, pol, t0 in itertools.product((-0.9, 0.1, 0.8), (0.5, 3.0), (0.0, 1.1), (53000.0, 53300.0, 53777.7)):
        params = {nm + "log10_h": -13.2, nm + "cos_gwtheta": cth, nm + "gwphi": ph, nm + "gwpol": pol, "burst_t0": t0}
        rp, rc, _ = pattern(np.array(psr.pos), np.arccos(cth), ph)
        want = 10**-13.2 * (rp * np.cos(2 * pol) + rc * np.sin(2 * pol)) * np.clip(psr.toas - t0 * DAY, 0, None)
        close("burst in a signal", sig.get_delay(params), want, 1e-9)
        n += 1
    return {"states": n, "transitions": n, "evaluations": n, "outcomes": [desc["order"]]}


# ---------------------------------------------------------------- binaries: rates


ECC = [0.0, 0.05, 0.2, 0.4, 0.6, 0.75, 0.85]
ECC_T = ECC + [0.9, 0.93]


def ref_rates(F, mc, q, e):
    """Peters (1964) rates and relativistic precession to second order (Barack & Cutler 2004), from the component masses."""
    M = TSUN * mc * ((1 + q) ** 2 / q) ** 0.6
    m1 = M / (1 + q)
    m2 = q * m1
    w = 2 * np.pi * F
    a = (M / w**2) ** (1.0 / 3)  # Kepler
    dadt = -64.0 / 5 * m1 * m2 * M / a**3 / (1 - e**2) ** 3.5 * (1 + 73.0 / 24 * e**2 + 37.0 / 96 * e**4)
    dedt = -304.0 / 15 * e * m1 * m2 * M / a**4 / (1 - e**2) ** 2.5 * (1 + 121.0 / 304 * e**2)
    dFdt = -1.5 * F / a * dadt
    x = (w * M) ** (2.0 / 3) / (1 - e**2)
    dgdt = 3 * w * x * (1 + 0.25 * x * (26 - 15 * e**2))
    return dFdt, dedt, dgdt


def run_rates(desc, seed):
    from enterprise.signals import utils

    Fs, mcs, qs = (1e-9, 7e-9, 1e-8, 2e-7), (1e6, 3e8, 1e9, 1e10), (0.01, 0.25, 0.8, 1.0)
    n = 0
    for q in qs:
        for e in desc["ecc"]:
            for F, mc in itertools.product(Fs, mcs):
                r = ref_rates(F, mc, q, e)
                what = " at F=%g, mc=%g, q=%g, e=%g" % (F, mc, q, e)
                close("dF/dt" + what, utils.get_Fdot(F, mc, e), r[0], 1e-10)
                close("de/dt" + what, utils.get_edot(F, mc, e), r[1], 1e-10)
                close("dgamma/dt" + what, utils.get_gammadot(F, mc, q, e), r[2], 1e-10)
                y = np.array([F, e, 0.3, 1.1])
                want = np.array([r[0], r[1], r[2], 2 * np.pi * F])
                for t in (0.0, 1e8):
                    got = np.asarray(utils.get_coupled_ecc_eqns(y, t, mc, q))
                    close("the evolution equations" + what, got / np.where(want == 0, 1, want), np.where(want == 0, 0.0, 1.0), 1e-10)
                    got = np.asarray(utils.get_coupled_constecc_eqns(np.array([F, 1.1]), t, mc, e))
                    close("the constant-eccentricity equations" + what, got / want[[0, 3]], np.ones(2), 1e-10)
                n += 1
            # the same as arrays
            F, mc = np.repeat(Fs, len(mcs)), np.tile(mcs, len(Fs))
            ea, qa = np.full(len(F), e), np.full(len(F), q)
            copies = [x.copy() for x in (F, mc, qa, ea)]
            r = [ref_rates(F, mc, q, e)[k] for k in range(3)]
            for nm, f, args, want in (
                ("dF/dt", utils.get_Fdot, (F, mc, ea), r[0]), ("de/dt", utils.get_edot, (F, mc, ea), r[1]), ("dgamma/dt", utils.get_gammadot, (F, mc, qa, ea), r[2]),
            ):
                got = f(*args)
                unchanged(nm, [F, mc, qa, ea], copies)
                if np.any(want != 0):
                    close(nm + " of arrays", got / want, np.ones(len(F)), 1e-10)
            n += 1
    return {"states": n, "transitions": n, "evaluations": 5 * n, "outcomes": [n]}


# ---------------------------------------------------------------- binaries: harmonics


def bessel(n, x):
    """J_n(x) for integer n from Bessel's integral (periodic trapezoid rule, spectrally accurate)."""
    th = 2 * np.pi * (np.arange(256) + 0.5) / 256
    return np.mean(np.cos(n * th - x * np.sin(th)))


def ref_harmonics(n, mc, dl, h0, F, e):
    w = 2 * np.pi * F
    zeta = (TSUN * mc) ** (5.0 / 3) * w ** (2.0 / 3) / (dl * MPC_S) if h0 is None else h0 / 2.0
    J = lambda k: bessel(k, n * e)  # noqa: E731
    a = -n * zeta * (J(n - 2) - 2 * e * J(n - 1) + 2.0 / n * J(n) + 2 * e * J(n + 1) - J(n + 2))
    b = -n * zeta * np.sqrt(1 - e**2) * (J(n - 2) - 2 * J(n) + J(n + 2))
    c = 2 * zeta * J(n) / (n * w)
    return a, b, c, zeta


def run_harmonics(desc, seed):
    from enterprise.signals import utils

    n = 0
    for e in desc["ecc"]:
        for F, mc, dl, h0 in ((1e-8, 1e9, 100.0, None), (3e-9, 5e9, 16.0, None), (1e-8, 1e9, 100.0, 2e-15), (5e-8, 1e8, 1.0, 1e-14), (1e-8, 1e9, 100.0, 0.0)):
            ref = [ref_harmonics(k, mc, dl, h0, F, e) for k in range(1, 13)]
            zeta = ref[0][3]
            for j, (nm, f) in enumerate((("a_n", utils.get_an), ("b_n", utils.get_bn), ("c_n", utils.get_cn))):
                scale = zeta / (1.0 if j < 2 else 2 * np.pi * F) + 1e-300
                what = "%s at e=%g, F=%g, mc=%g, dl=%g, h0=%s" % (nm, e, F, mc, dl, h0)
                for k in range(1, 13):
                    close("%s for n=%d" % (what, k), f(k, mc, dl, h0, F, e), ref[k - 1][j], 0, 1e-10 * k * scale)
                    n += 1
                # all harmonics, and a track of frequencies and masses, as arrays
                nn = np.arange(1, 13)
                close(what + " as array", f(nn, mc, dl, h0, F, e), [r[j] for r in ref], 0, 2e-9 * scale)
                mca, dla = np.array([mc, 2 * mc, 0.5 * mc]), np.array([dl, dl, 3 * dl])
                cp = [mca.copy(), dla.copy(), nn.copy()]
                got = f(2, mca, dla, h0, F, e)
                unchanged(nm, [mca, dla, nn], cp)
                want = [ref_harmonics(2, x, y, h0, F, e)[j] for x, y in zip(mca, dla)]
                close(what + " for arrays of masses", np.broadcast_to(got, 3), want, 1e-9, 1e-10 * scale)
                m0, d0 = np.array(mc), np.array(dl)
                f(2, m0, d0, h0, F, e)
                unchanged(nm, [m0, d0], [np.array(mc), np.array(dl)])
            if e == 0.0:
                for k in range(1, 13):
                    a, b, c = utils.get_an(k, mc, dl, h0, F, e), utils.get_bn(k, mc, dl, h0, F, e), utils.get_cn(k, mc, dl, h0, F, e)
                    close("circular harmonic %d" % k, [a, b, c], [-2 * zeta, -2 * zeta, 0] if k == 2 else [0, 0, 0], 0, 1e-12 * zeta)
    return {"states": n, "transitions": n, "evaluations": n, "outcomes": [len(desc["ecc"])]}


def kepler_E(l, e):
    E = l + e * np.sin(l)
    for _ in range(60):
        E = E - (E - e * np.sin(E) - l) / (1 - e * np.cos(E))
    return E


def quadrupole(l, e, inc, gamma, zeta):
    """Plus and cross strain of a Kepler orbit at mean anomaly l, in units where the circular amplitude is 4 zeta."""
    E = kepler_E(l, e)
    k = 1 - e * np.cos(E)
    x, y = np.cos(E) - e, np.sqrt(1 - e**2) * np.sin(E)
    vx, vy = -np.sin(E) / k, np.sqrt(1 - e**2) * np.cos(E) / k
    ax, ay = -x / k**3, -y / k**3
    cg, sg = np.cos(gamma), np.sin(gamma)
    x, y = cg * x - sg * y, sg * x + cg * y
    vx, vy = cg * vx - sg * vy, sg * vx + cg * vy
    ax, ay = cg * ax - sg * ay, sg * ax + cg * ay
    Qxx = 2 * (vx * vx + x * ax)
    Qyy = 2 * (vy * vy + y * ay)
    Qxy = 2 * vx * vy + x * ay + y * ax
    ci = np.cos(inc)
    return zeta * (Qxx - ci**2 * Qyy), zeta * 2 * ci * Qxy


def run_kepler(desc, seed):
    """The summed waveform is the time integral of the quadrupole strain (periastron is measured from the direction perpendicular to the line of nodes)."""
    from enterprise.signals import utils

    e = desc["e"]
    F, mc, dl = 1.3e-8, 2e9, 50.0
    w = 2 * np.pi * F
    nmax = 120
    xg, wg = np.polynomial.legendre.leggauss(24)
    n = 0
    for h0 in (None, 3e-15):
        zeta = (TSUN * mc) ** (5.0 / 3) * w ** (2.0 / 3) / (dl * MPC_S) if h0 is None else h0 / 2
        for inc, gamma, l0 in itertools.product((0.0, 0.7, np.pi / 2, 2.0, np.pi), (0.0, 0.9, 2.5), (0.0, 1.3)):
            t = np.linspace(0, 1.1 / F, 60)
            sp, sc = utils.calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, gamma, 0.0, inc)
            ip, ic = np.zeros(len(t)), np.zeros(len(t))
            for i in range(1, len(t)):
                tt = 0.5 * (t[i] + t[i - 1]) + 0.5 * (t[i] - t[i - 1]) * xg
                hp, hc = quadrupole(l0 + w * tt, e, inc, gamma + np.pi / 2, zeta)
                ip[i] = ip[i - 1] + 0.5 * (t[i] - t[i - 1]) * (wg @ hp)
                ic[i] = ic[i - 1] + 0.5 * (t[i] - t[i - 1]) * (wg @ hc)
            scale = zeta / w
            what = " of a Kepler orbit (e=%g, inclination %.2f, periastron %.2f)" % (e, inc, gamma)
            close("plus waveform" + what, sp - sp[0], ip, 0, 3e-7 * scale)
            close("cross waveform" + what, sc - sc[0], -ic, 0, 3e-7 * scale)
            n += 1
    return {"states": n, "transitions": n * 60, "evaluations": n, "outcomes": [e]}


def run_wave(desc, seed):
    """The waveforms for a precessing periastron, from the exponential form of each harmonic."""
    from enterprise.signals import utils

    e = desc["e"]
    n = 0
    for nmax in (2, 3, 6, 30):
        for inc, gd, h0 in itertools.product((0.0, 0.4, 1.2, np.pi / 2, 2.8), (0.0, 1e-10, -7e-10), (None, 2e-15)):
            F, mc, dl, l0, gamma = 1.1e-8, 3e9, 40.0, 0.6, 1.9
            w = 2 * np.pi * F
            t = np.array([0.0, 1.0, 1.7, 3.3, 9.9, 12.0, 5.0]) * YR
            args = [np.array(x) for x in (t,)]
            sp, sc = np.zeros(len(t)), np.zeros(len(t))
            zeta = 0.0
            for k in range(1, nmax):
                a, b, c, zeta = ref_harmonics(k, mc, dl, h0, F, e)
                # integrals of exp(i (k l +- 2 gamma))
                up = np.exp(1j * (k * (l0 + w * t) + 2 * (gamma + gd * t))) / (1j * (k * w + 2 * gd))
                dn = np.exp(1j * (k * (l0 + w * t) - 2 * (gamma + gd * t))) / (1j * (k * w - 2 * gd))
                acos = 0.5 * (up + dn).real * a  # a cos(kl) cos(2g)
                bsin = 0.5 * (dn - up).real * b  # b sin(kl) sin(2g)
                asin = 0.5 * (up - dn).imag * a  # a cos(kl) sin(2g)
                bcos = 0.5 * (up + dn).imag * b  # b sin(kl) cos(2g)
                sp += -(1 + np.cos(inc) ** 2) * (acos - bsin) + (1 - np.cos(inc) ** 2) * c * np.sin(k * (l0 + w * t))
                sc += 2 * np.cos(inc) * (bcos + asin)
            mca, dla = np.array(mc), np.array(dl)
            got = utils.calculate_splus_scross(nmax, mca, dla, h0, F, e, t, l0, gamma, gd, inc)
            unchanged("the waveform", [t, mca, dla], args + [np.array(mc), np.array(dl)])
            what = " (e=%g, nmax=%d, inclination %.2f, precession %g, h0=%s)" % (e, nmax, inc, gd, h0)
            close("plus waveform" + what, got[0], sp, 0, 1e-8 * zeta / w)
            close("cross waveform" + what, got[1], sc, 0, 1e-8 * zeta / w)
            if e == 0.0 and nmax > 2 and gd == 0.0:
                ph = 2 * (l0 + w * t + gamma)
                close("circular plus waveform" + what, got[0], (1 + np.cos(inc) ** 2) * zeta / w * np.sin(ph), 0, 1e-10 * zeta / w)
                close("circular cross waveform" + what, got[1], np.cos(inc) * 2 * zeta / w * np.cos(ph), 0, 1e-10 * zeta / w)
            n += 1
    return {"states": n, "transitions": n, "evaluations": n, "outcomes": [e]}


# ---------------------------------------------------------------- binaries: evolution


def run_evolution(desc, seed):
    from scipy.integrate import solve_ivp

    from enterprise.signals import utils

    e0, q = desc["e"], desc["q"]
    n = skipped = 0
    for F0, mc in itertools.product((1e-9, 1e-8, 4e-8), (1e7, 1e8, 1e9)):
        for grid in (np.linspace(0, 12 * YR, 9), np.array([0.0, 3 * YR]), np.linspace(5 * YR, 0, 6)):
            # away from coalescence (and from its time reverse)
            r0 = ref_rates(F0, mc, q, e0)
            if abs(r0[0]) * 12 * YR > 0.3 * F0 or abs(r0[1]) * 12 * YR > 0.3 * max(1 - e0, 0.05):
                skipped += 1
                continue
            gamma0, phase0 = 0.4, 1.2
            g0 = grid.copy()
            got = utils.solve_coupled_ecc_solution(F0, e0, gamma0, phase0, mc, q, grid)
            cst = utils.solve_coupled_constecc_solution(F0, e0, phase0, mc, grid)
            unchanged("the solver", [grid], [g0])
            if np.shape(got) != (len(grid), 4) or np.shape(cst) != (len(grid), 2):
                raise engine.Violation("solutions have shapes %s and %s for %d times" % (np.shape(got), np.shape(cst), len(grid)))

            def full(t, y):
                r = ref_rates(y[0] * F0, mc, q, y[1])
                return [r[0] / F0, r[1], r[2], 2 * np.pi * y[0] * F0]

            def const(t, y):
                return [ref_rates(y[0] * F0, mc, q, e0)[0] / F0, 2 * np.pi * y[0] * F0]

            sol = solve_ivp(full, (grid[0], grid[-1]), [1.0, e0, gamma0, phase0], method="DOP853", rtol=1e-11, atol=1e-12, t_eval=grid)
            ref = sol.y.T
            sol = solve_ivp(const, (grid[0], grid[-1]), [1.0, phase0], method="DOP853", rtol=1e-11, atol=1e-12, t_eval=grid)
            refc = sol.y.T
            what = " (F0=%g, e0=%g, mc=%g, q=%g, %d times to %.1f yr)" % (F0, e0, mc, q, len(grid), grid[-1] / YR)
            phase = 1e-6 * max(1.0, np.max(np.abs(ref[:, 3])))
            close("F(t)/F0" + what, got[:, 0] / F0, ref[:, 0], 0, 1e-5)
            close("e(t)" + what, got[:, 1], ref[:, 1], 0, 1e-6)
            close("gamma(t)" + what, got[:, 2], ref[:, 2], 0, 1e-5)
            close("phase(t)" + what, got[:, 3], ref[:, 3], 0, phase + 1e-5)
            close("F(t)/F0 at constant eccentricity" + what, cst[:, 0] / F0, refc[:, 0], 0, 1e-5)
            close("phase(t) at constant eccentricity" + what, cst[:, 1], refc[:, 1], 0, phase + 1e-5)
            if e0 == 0.0:
                k = 8.0 / 3 * ref_rates(F0, mc, q, 0.0)[0] / F0
                close("circular F(t)/F0" + what, got[:, 0] / F0, (1 - k * (grid - grid[0])) ** -0.375, 0, 1e-5)
                close("circular e(t)" + what, got[:, 1], 0 * grid, 0, 1e-9)
            n += 1
    return {"states": n, "transitions": n * 9, "evaluations": 2 * n, "outcomes": [e0], "extra": {"near coalescence": skipped}}


def cases(tier, seed):
    ecc = ECC if tier == "quick" else ECC_T
    ret = [{"antenna": 1, "part": p, "n": 6 if tier == "quick" else 12} for p in range(3)]
    ret += [{"burst": 1, "order": o, "log10_h": [-14.5] if tier == "quick" else [-16.0, -14.5, -11.0]} for o in ("sorted", "rev", "mix")]
    ret += [{"rates": 1, "ecc": ecc}, {"harmonics": 1, "ecc": ecc[:5]}]
    ret += [{"kepler": 1, "e": e} for e in (0.0, 0.1, 0.25, 0.4, 0.5, 0.6)]
    ret += [{"wave": 1, "e": e} for e in (0.0, 0.1, 0.3, 0.5, 0.6)]
    ret += [{"evolution": 1, "e": e, "q": q} for e in (0.0, 0.1, 0.4, 0.7) for q in (0.05, 0.5, 1.0)]
    return ret


def run_case(desc, seed):
    for k, f in (("antenna", run_antenna), ("burst", run_burst), ("rates", run_rates), ("harmonics", run_harmonics), ("kepler", run_kepler), ("wave", run_wave), ("evolution", run_evolution)):
        if k in desc:
            return f(desc, seed)
    raise ValueError(desc)
