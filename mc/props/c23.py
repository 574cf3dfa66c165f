"""C23: overlap reduction functions are valid spatial correlations."""

import itertools

import numpy as np

from mc import engine, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["HEALPix pixel centers and spherical-harmonic transforms of healpy; unit position vectors"]
BOUNDS = {
    "quick": "all ordered pairs and all triples out of 72 directions (axes, diagonals, edges, irregular, antipodes, near-coincident down to one unit in "
    "the last place); anisotropy: 6 sets of pulsars (also on pixel centers, coincident, mirrored) x 4 resolutions x all multipoles up to l=3, all "
    "single-pixel skies up to 48 pixels",
    "thorough": "multipoles up to l=5, single-pixel skies up to 192 pixels",
}


def directions():
    ret = []
    for v in itertools.product((-1, 0, 1), repeat=3):
        if any(v):
            ret.append(np.array(v, "d") / np.sqrt(np.dot(v, v)))
    for k in range(10):
        th, ph = np.arccos(1 - 2 * (k + 0.37) / 10.0), 2.4 * k + 0.1
        ret.append(np.array([np.cos(ph) * np.sin(th), np.sin(ph) * np.sin(th), np.cos(th)]))
    for i, b in ((0, 27), (1, 31), (2, 5)):
        base = ret[b]
        e = np.cross(base, [0.3, 0.5, -0.7])
        e = e / np.sqrt(np.dot(e, e))
        for d in (1e-1, 1e-3, 1e-5, 1e-7, 1e-8, 1e-10):
            ret.append(np.cos(d) * base + np.sin(d) * e)
        for a in range(3):
            x = base.copy()
            x[a] = np.nextafter(x[a], 2)
            ret.append(x)
    for b in (26, 29, 33):
        ret.append(-ret[b])
        ret.append(-ret[b] * (1 + 2.3e-16))
        ret.append(np.nextafter(-ret[b], 1))
    return ret


def hd_ref(x):
    """Hellings and Downs, from the angle."""
    y = (1 - np.cos(x)) / 2
    return 0.5 if y < 1e-30 else 1.5 * y * np.log(y) - 0.25 * y + 0.5


def angle(a, b):
    return np.arctan2(np.sqrt(np.sum(np.cross(a, b) ** 2)), np.dot(a, b))


def cases(tier, seed):
    lmax = 3 if tier == "quick" else 5
    ret = [{"pairs": k} for k in ("hd", "dipole", "monopole")]
    ret += [{"triples": k} for k in ("hd", "dipole", "monopole")]
    for s in range(6):
        for ns in (1, 2, 4, 8):
            ret.append({"anis": s, "nside": ns, "lmax": lmax})
    for s in range(6):
        for ns in (1, 2) if tier == "quick" else (1, 2, 4):
            ret.append({"pixels": s, "nside": ns})
        ret.append({"iso": s})
    ret += [{"transforms": lm} for lm in range(0, lmax + 1)]
    ret += [{"signal": lm} for lm in range(0, 3)]
    return ret


def close(got, want, what, tol):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(got), np.abs(got - want), np.inf)), want.shape) if got.shape == want.shape else None
        raise engine.Violation("%s: got %s, expected %s (at %s)" % (what, got if i is None else got[i], want if i is None else want[i], i))


def orf(name):
    from enterprise.signals import utils

    return getattr(utils, name + "_orf")


def rotations(seed):
    rng = np.random.RandomState(seed)
    ret = [np.eye(3)[[1, 2, 0]], np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]])]
    for _ in range(2):
        q, _r = np.linalg.qr(rng.randn(3, 3))
        ret.append(q)
    return ret


def run_pairs(name, seed):
    fn, D = orf(name), directions()
    inst = fn()("gw_orf")
    same = {"hd": 1.0, "dipole": 1 + 1e-5, "monopole": 1 + 1e-5}[name]
    n = 0
    for (i, a), (j, b) in itertools.product(enumerate(D), repeat=2):
        ident = np.array_equal(a, b)
        x = angle(a, b)
        want = same if ident else {"hd": hd_ref(x), "dipole": np.cos(x), "monopole": 1.0}[name]
        got = fn(a, b)
        if not (np.ndim(got) == 0 and np.isfinite(got) and abs(got - want) < 1e-11):
            raise engine.Violation("%s overlap is %r, expected %r, for %s and %s" % (name, got, want, a.tolist(), b.tolist()))
        if fn(b, a) != got or inst(a, b) != got or inst(a, b, params={}) != got:
            raise engine.Violation("%s overlap is not symmetric, or depends on how it is called, for %s and %s" % (name, a.tolist(), b.tolist()))
        for R in rotations(seed):
            ra, rb = R @ a, R @ b
            if ident == np.array_equal(ra, rb) and abs(fn(ra, rb) - got) > 1e-11:
                raise engine.Violation("%s overlap changes under a rotation for %s and %s" % (name, a.tolist(), b.tolist()))
            n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [name]}


def run_triples(name):
    fn, D = orf(name), directions()
    D = [d for i, d in enumerate(D) if not any(np.array_equal(d, e) for e in D[:i])]
    A = np.array([[fn(a, b) for a in D] for b in D])
    idx = np.array(list(itertools.combinations(range(len(D)), 3)))
    M = A[idx[:, :, None], idx[:, None, :]]
    w = np.linalg.eigvalsh(M)[:, 0]
    if np.min(w) <= 1e-6:
        t = idx[np.argmin(w)]
        raise engine.Violation("%s overlaps are not positive definite (%g) for %s" % (name, np.min(w), [D[i].tolist() for i in t]))
    if np.linalg.eigvalsh(A)[0] <= 1e-9:
        raise engine.Violation("%s overlaps are not positive definite for all the directions together" % name)
    n = len(idx) + 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [name]}


# ---------------------------------------------------------------- anisotropy


def pulsar_sets(seed):
    import healpy as hp

    rng = np.random.RandomState(seed)
    th, ph = hp.pix2ang(2, [1, 17, 23, 40])
    return [
        np.array([[0.3, 1.1], [1.9, 0.4], [4.4, 2.2], [5.9, 1.7]]),
        np.array([[0.0, np.pi / 2], [np.pi, np.pi / 2], [np.pi / 2, np.pi / 2], [0.0, 1e-7], [2.0, np.pi - 1e-3]]),
        np.array([ph, th]).T,  # pixel centers
        np.array([[0.3, 1.1], [0.3, 1.1], [0.3, 1.1 + 1e-6], [2.2, 0.9]]),  # coincident and close
        np.array([[0.9, 1.1], [-0.9, 1.1], [0.9, np.pi - 1.1], [np.pi - 0.9, 1.1]]),  # mirrored: coordinates in common
        np.array([rng.uniform(0, 2 * np.pi, 3), np.arccos(rng.uniform(-1, 1, 3))]).T,
    ]


def vec(phi, theta):
    return np.array([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)])


def response_ref(loc, nside):
    """Plus and cross responses of every pulsar to every pixel, one at a time."""
    import healpy as hp

    th, ph = hp.pix2ang(nside, np.arange(hp.nside2npix(nside)))
    F = np.zeros((len(loc), len(th), 2))
    for i, (pphi, pth) in enumerate(loc):
        p = vec(pphi, pth)
        for k in range(len(th)):
            om = -vec(ph[k], th[k])
            m = np.array([-np.sin(ph[k]), np.cos(ph[k]), 0.0])
            q = np.array([-np.cos(ph[k]) * np.cos(th[k]), -np.cos(th[k]) * np.sin(ph[k]), np.sin(th[k])])
            mp, qp, op = np.dot(m, p), np.dot(q, p), np.dot(om, p)
            if 1 - op < 1e-6:  # waves along the line of sight: no defined polarization angle
                F[i, k] = np.nan
                continue
            F[i, k, 0] = 0.5 * (qp**2 - mp**2) / (1 - op)
            F[i, k, 1] = mp * qp / (1 - op)
    return F * np.sqrt(1.5 / len(th))


def correlation_ref(F, power):
    """Sum over pixels and polarizations; the pulsar term doubles the diagonal. Undefined responses: value and tolerance."""
    ok = np.where(np.isfinite(F), F, 0.0)
    C = np.einsum("ikp,jkp,k->ij", ok, ok, power)
    big = np.where(np.isfinite(F[:, :, 0]), np.sqrt(np.sum(ok**2, axis=2)), np.sqrt(1.5 / F.shape[1]) * 1.000001)
    bad = ~np.isfinite(F[:, :, 0])
    slack = np.einsum("ik,jk,k->ij", big, big, np.abs(power)) - np.einsum("ik,jk,k->ij", big * ~bad, big * ~bad, np.abs(power))
    d = 1 + np.eye(len(F))
    return C * d, slack * d


def legendre(l, m, x):
    """Associated Legendre function with Condon-Shortley phase, by recursion."""
    pmm = 1.0
    s = np.sqrt((1 - x) * (1 + x))
    for k in range(1, m + 1):
        pmm = -pmm * (2 * k - 1) * s
    if l == m:
        return pmm
    p1 = x * (2 * m + 1) * pmm
    for k in range(m + 2, l + 1):
        pmm, p1 = p1, (x * (2 * k - 1) * p1 - (k + m - 1) * pmm) / (k - m)
    return p1


def ylm(l, m, phi, theta):
    """Real spherical harmonic."""
    a = abs(m)
    f = 1.0
    for k in range(l - a + 1, l + a + 1):
        f /= k
    y = np.sqrt((2 * l + 1) / (4 * np.pi) * f) * legendre(l, a, np.cos(theta))
    return y if m == 0 else np.sqrt(2) * y * (np.cos(a * phi) if m > 0 else np.sin(a * phi))


def sky(clm, nside):
    import healpy as hp

    th, ph = hp.pix2ang(nside, np.arange(hp.nside2npix(nside)))
    ret, i = np.zeros(len(th)), 0
    l = 0
    while i < len(clm):
        for m in range(-l, l + 1):
            if clm[i]:
                ret += clm[i] * np.array([ylm(l, m, p, t) for p, t in zip(ph, th)])
            i += 1
        l += 1
    return ret


def correlations(got, F, power, what):
    want, slack = correlation_ref(F, power)
    if not np.all(np.isfinite(got)):
        raise engine.Violation("%s is not finite: %s" % (what, got))
    if got.shape != want.shape or np.any(np.abs(got - want) > slack + 1e-9 * (1 + np.max(np.abs(want)))):
        raise engine.Violation("%s is %s, expected %s" % (what, got.tolist(), want.tolist()))
    if not np.allclose(got, got.T, atol=1e-12):
        raise engine.Violation("%s is not symmetric" % what)


def run_anis(desc, seed):
    from enterprise.signals import anis_coefficients as anis
    from enterprise.signals import utils

    loc, ns, lmax = pulsar_sets(seed)[desc["anis"]], desc["nside"], desc["lmax"]
    F = response_ref(loc, ns)
    n = 0
    Fe = None
    for lm in range(lmax + 1):
        B = anis.anis_basis(loc, lm, nside=ns)
        nc = (lm + 1) ** 2
        if B.shape != (nc, len(loc), len(loc)):
            raise engine.Violation("basis of shape %s for l up to %d" % (B.shape, lm))
        import healpy as hp

        th, ph = hp.pix2ang(ns, np.arange(hp.nside2npix(ns)))
        Fe = anis.signalResponse_fast(loc[:, 1], loc[:, 0], th, ph)
        for i in range(nc):
            clm = np.zeros(nc)
            clm[i] = 1.0
            h = sky(clm, ns)
            correlations(B[i], F, h, "basis element %d of %d pulsars at resolution %d" % (i, len(loc), ns))
            correlations(anis.orfFromMap_fast(loc, h), F, h, "correlation for the map of element %d" % i)
            correlations(anis.orfFromMap_fast(loc, h, response=Fe), F, h, "correlation for the map of element %d with a given response" % i)
            n += 3
        rng = np.random.RandomState(seed)
        for k in range(3):
            clm = rng.uniform(-1, 1, nc)
            clm[0] = 2 * np.sqrt(np.pi)
            correlations(anis.getCov(clm, ns, Fe), F, sky(clm, ns), "correlation for multipoles %s" % clm)
            pos = [vec(*x) for x in loc]
            for lb in (lm, lmax):  # a larger basis serves a smaller l
                BB = B if lb == lm else anis.anis_basis(loc, lb, nside=ns)
                first = [next(i for i in range(len(pos)) if np.array_equal(pos[i], p)) for p in pos]
                for perm in (list(range(len(pos))), list(range(len(pos)))[::-1]):
                    PP, BP = [pos[i] for i in perm], BB[:, perm][:, :, perm]
                    got = np.array([[utils.anis_orf(a, b, clm[1:], anis_basis=BP, psrs_pos=PP, lmax=lm) for b in pos] for a in pos])
                    if len(set(first)) < len(pos):  # coincident pulsars: the first of them answers
                        keep = [i for i in range(len(pos)) if first.count(first[i]) == 1]
                    else:
                        keep = list(range(len(pos)))
                    want = np.einsum("c,cij->ij", clm, B)
                    close(got[np.ix_(keep, keep)], want[np.ix_(keep, keep)], "anisotropic overlap for multipoles %s" % clm, 1e-9)
                    n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [engine.outcome_hash(B)]}


def run_pixels(desc, seed):
    import healpy as hp

    from enterprise.signals import anis_coefficients as anis

    loc, ns = pulsar_sets(seed)[desc["pixels"]], desc["nside"]
    F, n = response_ref(loc, ns), 0
    th, ph = hp.pix2ang(ns, np.arange(hp.nside2npix(ns)))
    Fe = anis.signalResponse_fast(loc[:, 1], loc[:, 0], th, ph)
    ok = np.isfinite(F[:, :, 0])
    for pol in (0, 1):
        got = Fe[:, pol::2]
        if not np.all(np.isfinite(got)):
            raise engine.Violation("response to pixel %s of a pulsar is not finite" % np.argwhere(~np.isfinite(got))[0])
        close(got[ok], F[:, :, pol][ok], "response to polarization %d" % pol, 1e-7)
    for k in range(len(th)):
        for amp in (1.0, -2.5):
            h = np.zeros(len(th))
            h[k] = amp
            for r in (None, Fe):
                correlations(anis.orfFromMap_fast(loc, h, response=r), F, h, "correlation for a sky with power in pixel %d only" % k)
                n += 1
    for plus, norm in itertools.product((True, False), repeat=2):
        gp, pp = np.meshgrid(ph, loc[:, 0])
        gt, pt = np.meshgrid(th, loc[:, 1])
        G = anis.createSignalResponse_pol(pp, pt, gp, gt, plus=plus, norm=norm)
        close(G[ok], (F[:, :, 0 if plus else 1] / (1 if norm else np.sqrt(1.5)))[ok], "response with plus=%s, norm=%s" % (plus, norm), 1e-7)
        n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(desc)]}


def run_iso(desc, seed):
    from enterprise.signals import anis_coefficients as anis
    from enterprise.signals import utils

    loc = pulsar_sets(seed)[desc["iso"]]
    pos = [vec(*x) for x in loc]
    n = 0
    for ns in (8, 16):
        B = anis.anis_basis(loc, 0, nside=ns)[0] * 2 * np.sqrt(np.pi)
        C = anis.orfFromMap_fast(loc, np.ones(12 * ns**2))
        for i, j in itertools.product(range(len(pos)), repeat=2):
            want = utils.hd_orf(pos[i], pos[j]) if i != j and not np.array_equal(pos[i], pos[j]) else (1.0 if i == j else 0.5)
            for X in (B, C):
                if not abs(X[i, j] - want) < 6.0 / (12 * ns**2):
                    raise engine.Violation("isotropic sky gives %r, expected %r, for pulsars %s and %s" % (X[i, j], want, loc[i], loc[j]))
                n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(desc)]}


def run_transforms(lmax, seed):
    import healpy as hp

    from enterprise.signals import anis_coefficients as anis

    nc, n = (lmax + 1) ** 2, 0
    rng = np.random.RandomState(seed)
    units = [np.eye(nc)[i] for i in range(nc)] + [rng.randn(nc), -2.5 * np.ones(nc)]
    for clm in units:
        alm = anis.almFromClm(clm)
        if len(alm) != (lmax + 1) * (lmax + 2) // 2:
            raise engine.Violation("%d complex multipoles for l up to %d" % (len(alm), lmax))
        close(anis.clmFromAlm(alm), clm, "multipoles after conversion to complex and back", 1e-12)
        for ns in (2, 4, 8):
            h = sky(clm, ns)
            close(anis.mapFromClm(clm, ns), h, "map of multipoles %s" % clm, 1e-10)
            close(anis.mapFromClm_fast(clm, ns), h, "fast map of multipoles %s" % clm, 1e-9)
            n += 2
        for ns in (8, 16):
            h = sky(clm, ns)
            tol = 0.4 * (lmax + 1) ** 2 / ns**2 * (0.1 + np.max(np.abs(clm)))
            close(anis.clmFromMap(h, lmax), clm, "multipoles of the map of %s" % clm, tol)
            close(anis.clmFromMap_fast(h, lmax), clm, "fast multipoles of the map of %s" % clm, tol)
            n += 2
    # exactly linear in the map
    npix = 12 * 4**2
    th, ph = hp.pix2ang(4, np.arange(npix))
    for k in range(0, npix, 5):
        h = np.zeros(npix)
        h[k] = 3.0
        want = [3.0 * ylm(l, m, ph[k], th[k]) * 4 * np.pi / npix for l in range(lmax + 1) for m in range(-l, l + 1)]
        close(anis.clmFromMap(h, lmax), np.array(want), "multipoles of one pixel", 1e-11)
        close(anis.clmFromMap_fast(h, lmax)[0], want[0], "fast monopole of one pixel", 1e-11)
        n += 2
    for l in range(lmax + 1):
        for m in range(-l, l + 1):
            want = np.array([ylm(l, m, p, t) for p, t in zip(ph, th)])
            close(anis.real_sph_harm(m, l, ph, th), want, "real spherical harmonic l=%d m=%d" % (l, m), 1e-11)
            n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(lmax)]}


def run_signal(lmax, seed):
    """The overlaps as the common process of a model."""
    from enterprise.signals import anis_coefficients as anis
    from enterprise.signals import gp_priors, gp_signals, parameter, signal_base, utils

    ps = [psrs.make_psr(psrs.spec(name="J000%d+0001" % i, pos=i), seed + i) for i in range(3)]
    loc = np.array([[p.phi, p.theta] for p in ps])
    B = anis.anis_basis(loc, lmax, nside=4)
    pl = gp_priors.powerlaw(log10_A=-14.0, gamma=3.0)
    n = 0
    nc = (lmax + 1) ** 2 - 1
    rng = np.random.RandomState(seed)
    for name in ("hd", "dipole", "monopole", "anis", "anis_const"):
        x = rng.uniform(-0.05, 0.05, nc)
        params = {}
        if name == "anis":
            if not nc:
                continue
            o = utils.anis_orf(params=parameter.Uniform(-5, 5, size=nc)("clm"), anis_basis=B, psrs_pos=[p.pos for p in ps], lmax=lmax)
            params = {"clm": x}
        elif name == "anis_const":
            o = utils.anis_orf(params=x, anis_basis=B, psrs_pos=[p.pos for p in ps], lmax=lmax)
        else:
            o = getattr(utils, name + "_orf")()
        for order in itertools.permutations(range(3)):
            gw = gp_signals.FourierBasisCommonGP(pl, o, components=2, Tspan=1e8, name="gw")
            pta = signal_base.PTA([signal_base.SignalCollection([gw])(ps[i]) for i in order])
            Phi = np.asarray(pta.get_phi(params))
            for a, b in itertools.product(range(3), repeat=2):
                i, j = order[a], order[b]
                if name.startswith("anis"):
                    clm = np.concatenate([[2 * np.sqrt(np.pi)], x])
                    want = np.dot(clm, B[:, i, j])
                else:
                    d = {"hd": 1.0, "dipole": 1 + 1e-5, "monopole": 1 + 1e-5}[name]
                    y = angle(ps[i].pos, ps[j].pos)
                    want = d if i == j else {"hd": hd_ref(y), "dipole": np.cos(y), "monopole": 1.0}[name]
                from mc.models import powerlaw

                S = powerlaw(np.repeat([1e-8, 2e-8], 2), -14.0, 3.0)
                close(Phi[4 * a : 4 * a + 4, 4 * b : 4 * b + 4] / np.sqrt(np.outer(S, S)), want * np.eye(4), "%s correlation of pulsars %d and %d" % (name, i, j), 1e-9)
                n += 1
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(lmax)]}


def run_case(desc, seed):
    if "pairs" in desc:
        return run_pairs(desc["pairs"], seed)
    if "triples" in desc:
        return run_triples(desc["triples"])
    if "anis" in desc:
        return run_anis(desc, seed)
    if "pixels" in desc:
        return run_pixels(desc, seed)
    if "iso" in desc:
        return run_iso(desc, seed)
    if "transforms" in desc:
        return run_transforms(desc["transforms"], seed)
    return run_signal(desc["signal"], seed)
