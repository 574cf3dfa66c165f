"""C10: priors, samplers and percentage-point functions describe one distribution."""

import itertools

import numpy as np
from scipy.special import erf, gammaln

from mc import engine, models, psrs, rng

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the inverse-gamma sampler draws inside scipy: shape, support, scale equivariance and the distribution of 2000 draws are "
    "checked instead of single draws",
    "truncated normal: values exactly on a bound (probability zero) are not checked; vector arguments are all vectors or all scalars",
]
BOUNDS = {
    "quick": "7 prior types x 3-6 argument points x scalar/vector arguments x sizes {None, 1, 2, 3, 12, 40} x grid of 13 values per "
    "element (all pairs for vectors of two); unit-cube grid of 9; all sequences of generator answers from a 4-letter alphabet up to "
    "length 5 (6 for rejection)",
    "thorough": "answers up to length 7",
}
SQ2 = np.sqrt(2.0)


def ncdf(z):
    return 0.5 * (1 + erf(z / SQ2))


class Dist(object):
    """Reference distribution of one scalar element."""

    def __init__(self, kind, a):
        self.kind, self.a = kind, a

    def pdf(self, x):
        k, a = self.kind, self.a
        if k == "Uniform":
            return 1.0 / (a[1] - a[0]) if a[0] <= x <= a[1] else 0.0
        if k == "LinearExp":
            return np.log(10) * 10**x / (10 ** a[1] - 10 ** a[0]) if a[0] <= x <= a[1] else 0.0
        if k == "Normal":
            return np.exp(-0.5 * ((x - a[0]) / a[1]) ** 2) / np.sqrt(2 * np.pi) / a[1]
        if k == "TruncNormal":
            z = ncdf((a[3] - a[0]) / a[1]) - ncdf((a[2] - a[0]) / a[1])
            return np.exp(-0.5 * ((x - a[0]) / a[1]) ** 2) / np.sqrt(2 * np.pi) / a[1] / z if a[2] < x < a[3] else 0.0
        if k == "InvGamma":
            return np.exp(a[0] * np.log(a[1]) - gammaln(a[0]) - (a[0] + 1) * np.log(x) - a[1] / x) if x > 0 else 0.0

    def cdf(self, x):
        k, a = self.kind, self.a
        if k == "Uniform":
            return (x - a[0]) / (a[1] - a[0])
        if k == "LinearExp":
            return (10**x - 10 ** a[0]) / (10 ** a[1] - 10 ** a[0])
        if k == "Normal":
            return ncdf((x - a[0]) / a[1])

    def unit(self, x):
        """The unit draw behind a sample."""
        return (x - self.a[0]) / self.a[1] if self.kind in ("Normal", "TruncNormal") else self.cdf(x)

    def inside(self, x):
        k, a = self.kind, self.a
        if k in ("Uniform", "LinearExp"):
            return a[0] - 1e-12 <= x <= a[1] + 1e-12
        if k == "TruncNormal":
            return a[2] <= x <= a[3]
        return x > 0 if k == "InvGamma" else np.isfinite(x)

    def grid(self):
        k, a = self.kind, self.a
        if k in ("Uniform", "LinearExp", "TruncNormal"):
            lo, hi = (a[0], a[1]) if k != "TruncNormal" else (a[2], a[3])
            w = hi - lo
            g = [lo - w, lo - 1e-6 * w, lo + 1e-6 * w, lo + 0.2 * w, lo + 0.5 * w, lo + 0.81 * w, hi - 1e-6 * w, hi + 1e-6 * w, hi + 3 * w]
            return g + ([lo, hi] if k != "TruncNormal" else [])
        if k == "Normal":
            return [a[0] + a[1] * z for z in (-6, -2.5, -1, -0.3, 0, 0.4, 1, 2, 5)]
        return [-1.0, -1e-3, 1e-2, 0.1, 0.5, 1.0, 2.5, 10.0, 300.0]


ARGS = {
    "Uniform": [(0.0, 1.0), (-3.0, -1.0), (2.0, 7.5)],
    "LinearExp": [(-2.0, 1.0), (0.0, 0.5), (-18.0, -11.0)],
    "Normal": [(0.0, 1.0), (-2.0, 0.3), (5.0, 4.0)],
    "TruncNormal": [(0.0, 1.0, -2.0, 2.0), (1.0, 2.0, 0.5, 4.0), (-1.0, 0.5, -1.0, 0.2)],
    "InvGamma": [(1.0, 1.0), (2.5, 0.5), (0.7, 3.0)],
}
COVS = [np.array([[1.0, 0.3], [0.3, 2.0]]), np.array([[2.0, -0.5, 0.1], [-0.5, 1.0, 0.2], [0.1, 0.2, 0.7]])]


def klass(kind, args, size):
    from enterprise.signals import gp_priors, parameter

    if kind == "InvGamma":
        return gp_priors.InvGamma(alpha=args[0], gamma=args[1], size=size)
    return getattr(parameter, kind)(*args, size=size)


def cases(tier, seed):
    ret = []
    L = 5 if tier == "quick" else 7
    for kind, pts in ARGS.items():
        for i, a in enumerate(pts):
            for size in (None, 1, 2, 3):
                ret.append({"kind": kind, "args": a, "size": size, "L": L})
        if kind != "InvGamma":
            for size in (2, 3):
                ret.append({"kind": kind, "vec": size, "size": size, "L": L})
                ret.append({"kind": kind, "vec": size, "size": size, "L": L, "flip": 1})
        for size in (12, 40):
            ret.append({"kind": kind, "args": pts[0], "size": size, "L": 3})
            if kind != "InvGamma":
                ret.append({"kind": kind, "vec": size, "size": size, "L": 3})
    for i in range(len(COVS)):
        ret.append({"kind": "cov", "i": i})
    ret.append({"kind": "user"})
    ret.append({"kind": "errors"})
    for k in range(4):
        ret.append({"kind": "pta", "k": k})
    return ret


def same(a, b, tol=1e-9):
    if np.isinf(b) or np.isinf(a):
        return a == b
    return abs(a - b) <= tol * max(abs(b), 1e-3)


def one_case(desc, seed):
    kind, size = desc["kind"], desc["size"]
    if "vec" in desc:
        pts = ARGS[kind][::-1] if desc.get("flip") else ARGS[kind]
        pts = [pts[i % len(pts)] for i in range(size)]
        dists = [Dist(kind, p) for p in pts]
        args = [np.array([pts[i][j] for i in range(size)]) for j in range(len(pts[0]))]
    else:
        dists = [Dist(kind, tuple(desc["args"]))] * (size or 1)
        args = list(desc["args"])
    where = "%s%s size %s" % (kind, [np.asarray(a).tolist() for a in args], size)
    par = klass(kind, args, size)("x")
    if par.size != size or par.name != "x" or [p.name for p in par.params] != ["x"]:
        raise engine.Violation("%s: size %s name %s" % (where, par.size, par.name))
    repr(par)
    n, outs = 0, set()
    # densities
    grids = [d.grid() for d in dists]
    if len(dists) > 2:
        vals = [[g[i % len(g)] for g in grids] for i in range(len(grids[0]))]
        vals += [[g[(i + j * 3 + 1) % len(g)] for j, g in enumerate(grids)] for i in range(len(grids[0]))]
    else:
        vals = list(itertools.product(*grids))
    with np.errstate(all="ignore"):
        for v in vals:
            pdfs = [d.pdf(x) for d, x in zip(dists, v)]
            lp = sum(np.log(p) for p in pdfs)
            x = v[0] if size is None else np.array(v, dtype="d")
            got = {
                "logpdf": par.get_logpdf(x),
                "logpdf (params)": par.get_logpdf(params={"x": x, "y": 3.0}),
                "logpdf (keyword)": par.get_logpdf(value=x),
            }
            for k, g in got.items():
                if np.ndim(g) != 0 or not same(float(g), lp):
                    raise engine.Violation("%s at %s: %s is %s, expected %s" % (where, v, k, g, lp))
            for k, g in {"pdf": par.get_pdf(x), "pdf (params)": par.get_pdf(params={"x": x})}.items():
                if np.ndim(g) != 0 or not same(float(g), float(np.prod(pdfs))):
                    raise engine.Violation("%s at %s: %s is %s, expected %s" % (where, v, k, g, np.prod(pdfs)))
            n += 5
        outs.add(engine.outcome_hash([where, lp]))
    # percentage points
    if kind in ("Uniform", "Normal", "LinearExp"):
        us = [1e-6, 0.01, 0.2, 0.35, 0.5, 0.7, 0.9, 0.999] + ([0.0, 1.0] if kind != "Normal" else [])
        for i, u in enumerate(us):
            uu = [us[(i + 2 * j) % len(us)] for j in range(len(dists))]
            x = uu[0] if size is None else np.array(uu)
            for g in (par.get_ppf(x), par.get_ppf(params={"x": x})):
                g1 = np.atleast_1d(g)
                if g1.shape != (len(dists),):
                    raise engine.Violation("%s: percentage point of %s has shape %s" % (where, uu, np.shape(g)))
                back = [d.cdf(y) for d, y in zip(dists, g1)]
                if any(abs(b - w) > 1e-9 for b, w in zip(back, uu)) or not all(d.inside(y) for d, y in zip(dists, g1)):
                    raise engine.Violation("%s: percentage point of %s is %s, whose CDF is %s" % (where, uu, g, back))
                n += 1
    # samples
    if kind == "InvGamma":
        np.random.seed(seed + 12345)
        k, s = dists[0].a[0], dists[0].a[1]
        xs = []
        while len(xs) < 2000:
            x = par.sample()
            if np.shape(x) != (() if size is None else (size,)) or not np.all(np.asarray(x) > 0):
                raise engine.Violation("%s: sample %s" % (where, x))
            xs += np.atleast_1d(x).tolist()
            n += 1
        from scipy.stats import invgamma

        u = np.sort(invgamma.cdf(xs, k, scale=s))
        ks = np.max(np.abs(u - (np.arange(len(u)) + 0.5) / len(u)))
        if ks > 0.08:
            raise engine.Violation("%s: 2000 samples do not follow the prior (distance %.3f)" % (where, ks))
        np.random.seed(seed + 7)
        a = par.sample()
        np.random.seed(seed + 7)
        b = klass(kind, [k, 2 * s], size)("x").sample()
        if not np.allclose(np.asarray(b), 2 * np.asarray(a)):
            raise engine.Violation("%s: doubling the scale changes the sample from %s to %s" % (where, a, b))
        return n, outs
    nel = size or 1
    norm = kind in ("Normal", "TruncNormal")
    if kind == "TruncNormal":
        # one answer inside for every element, the others mostly outside
        letters = [-7.0, 7.5, 0.1, 0.3]
    elif norm:
        letters = [-1.5, 0.0, 0.25, 3.0]
    else:
        letters = [0.0, 0.25, 0.75, 1 - 1e-9]
    seqs = list(itertools.product(range(4), repeat=min(desc["L"], nel + 2) if kind == "TruncNormal" else min(nel, desc["L"])))
    for s in seqs:
        # distinct answers: letter plus a small mark of its position
        feed = [letters[c] + (1e-4 * (i + 1) if letters[c] < 0.9 or norm else -1e-4 * (i + 1)) for i, c in enumerate(s)]
        tail = [0.15 + 1e-3 * i for i in range(60)]
        with rng.controlled(uniforms=feed + tail, normals=feed + tail, limit=len(feed) + 50) as f:
            x = par.sample()
        n += 1
        if np.shape(x) != (() if size is None else (size,)):
            raise engine.Violation("%s: sample has shape %s" % (where, np.shape(x)))
        xs = np.atleast_1d(x).tolist()
        used = f.used_z if norm else f.used_u
        units = [d.unit(y) for d, y in zip(dists, xs)]
        match = [min(range(len(used)), key=lambda i: abs(used[i] - u)) if used else None for u in units]
        if any(m is None or abs(used[m] - u) > 1e-6 for m, u in zip(match, units)) or len(set(match)) != len(match):
            raise engine.Violation("%s: draws %s gave the sample %s (unit values %s)" % (where, used, xs, units))
        if not all(d.inside(y) for d, y in zip(dists, xs)):
            raise engine.Violation("%s: draws %s gave the sample %s outside of the support" % (where, used, xs))
        if kind != "TruncNormal" and len(used) != nel:
            raise engine.Violation("%s: %d draws for %d elements" % (where, len(used), nel))
        outs.add(engine.outcome_hash([where, xs]))
    return n, outs


def cov_case(i, seed):
    from enterprise.signals import parameter

    S = COVS[i]
    k = len(S)
    mu = np.arange(1.0, k + 1)
    par = parameter.Normal(mu=mu, sigma=S, size=k)("x")
    n, outs = 0, set()
    Si, ld = np.linalg.inv(S), np.linalg.slogdet(2 * np.pi * S)[1]
    for d in itertools.product([-2.0, -0.3, 0.0, 1.0], repeat=k):
        x = mu + np.array(d)
        lp = -0.5 * np.array(d) @ Si @ np.array(d) - 0.5 * ld
        if not same(float(par.get_logpdf(x)), lp) or not same(float(par.get_pdf(x)), np.exp(lp)):
            raise engine.Violation("Normal with covariance %s at %s: %s, expected %s" % (S.tolist(), x, par.get_logpdf(x), lp))
        n += 2
        outs.add(engine.outcome_hash(lp))
    cols = []
    for e in [np.zeros(k)] + list(np.eye(k)):
        with rng.controlled(normals=list(e) + [0.0] * 20) as f:
            cols.append(np.asarray(par.sample()))
        n += 1
        if len(f.used_z) != k or cols[-1].shape != (k,):
            raise engine.Violation("Normal with covariance: %d draws, sample of shape %s" % (len(f.used_z), cols[-1].shape))
    A = np.array([c - cols[0] for c in cols[1:]]).T
    if not np.allclose(cols[0], mu) or not np.allclose(A @ A.T, S):
        raise engine.Violation("Normal with covariance %s: samples have mean %s and covariance %s" % (S, cols[0], A @ A.T))
    try:
        par.get_ppf(np.full(k, 0.5))
        raise engine.Violation("Normal with covariance: percentage point without an error")
    except NotImplementedError:
        pass
    return n, outs


def user_case(seed):
    from enterprise.signals import parameter

    n, outs = 0, set()

    def pr(value, c=2.0):
        return np.where((value > 0) & (value < c), 2 * value / c**2, 0.0)

    def lpr(value, c=2.0):
        return np.log(pr(value, c))

    def smp(c=2.0, size=None):
        return c * np.sqrt(np.random.uniform(0, 1, size))

    def ppf(value, c=2.0):
        return c * np.sqrt(value)

    F = parameter.Function
    for size in (None, 2):
        for kw in ({"prior": F(pr, c=3.0)}, {"logprior": F(lpr, c=3.0)}):
            par = parameter.UserParameter(sampler=smp, ppf=F(ppf, c=3.0), size=size, **kw)("x")
            for v in itertools.product([-1.0, 0.5, 2.9, 3.1], repeat=size or 1):
                x = v[0] if size is None else np.array(v)
                with np.errstate(all="ignore"):
                    want = float(np.sum([np.log(pr(y, 3.0)) for y in v]))
                    got = [par.get_logpdf(x), par.get_logpdf(params={"x": x}), np.log(par.get_pdf(x))]
                if not all(same(float(g), want) for g in got):
                    raise engine.Violation("user prior %s at %s: %s, expected %s" % (sorted(kw), v, got, want))
                n += 3
            for u in itertools.product([0.04, 0.36, 0.81], repeat=size or 1):
                with rng.controlled(uniforms=u) as f:
                    s = par.sample()
                want = [3 * np.sqrt(y) for y in u]
                if np.atleast_1d(s).tolist() != want and not np.allclose(np.atleast_1d(s), want):
                    raise engine.Violation("user sampler with draws %s: %s, expected %s" % (u, s, want))
                x = u[0] if size is None else np.array(u)
                if not np.allclose(par.get_ppf(x), 3 * np.sqrt(x)):
                    raise engine.Violation("user percentage point %s: %s" % (u, par.get_ppf(x)))
                n += 2
                outs.add(engine.outcome_hash(want))
            assert f is not None
    return n, outs


def error_case(seed):
    from enterprise.signals import gp_priors, parameter

    def expect(exc, fn, what):
        try:
            fn()
        except exc:
            return
        raise engine.Violation("%s did not raise %s" % (what, exc.__name__))

    bad = parameter.LinearExp(1.0, 0.0)("x")
    expect(ValueError, lambda: bad.get_logpdf(0.5), "LinearExp with pmin > pmax")
    expect(ValueError, lambda: bad.sample(), "sampling LinearExp with pmin > pmax")
    badv = parameter.LinearExp(np.array([0.0, 2.0]), np.array([1.0, 1.0]), size=2)("x")
    expect(ValueError, lambda: badv.get_logpdf(np.array([0.5, 0.5])), "LinearExp with one pmin > pmax")
    expect(ValueError, lambda: badv.sample(), "sampling LinearExp with one pmin > pmax")
    eq = parameter.LinearExp(np.array([0.0, 1.0]), np.array([1.0, 1.0]), size=2)("x")
    expect(ValueError, lambda: eq.get_logpdf(np.array([0.5, 1.0])), "LinearExp with one pmin = pmax")
    expect(ValueError, lambda: eq.sample(), "sampling LinearExp with one pmin = pmax")
    for p in (parameter.TruncNormal(0, 1, -1, 1)("x"), gp_priors.InvGamma(1, 1)("x")):
        expect(NotImplementedError, lambda: p.get_ppf(0.5), "percentage point of %s" % p.name)
    nosamp = parameter.UserParameter(prior=parameter.Function(lambda value: 1.0))("x")
    expect(AttributeError, lambda: nosamp.sample(), "sampling without a sampler")
    return 7, {"errors"}


def pta_case(k, seed):
    """Prior and unit cube of a model with parameters of all types."""
    from enterprise.signals import gp_priors, gp_signals, parameter, signal_base, white_signals

    psr = psrs.make_psr(psrs.spec(layout="AB|A|B"), seed)
    efacs = [("Uniform", (0.5, 1.5)), ("Normal", (1.0, 0.2)), ("TruncNormal", (1.0, 0.5, 0.4, 2.0)), ("InvGamma", (3.0, 2.0))]
    amp = [("LinearExp", (-16.0, -12.0)), ("Uniform", (-16.0, -12.0)), ("Normal", (-14.0, 0.5)), ("LinearExp", (-15.0, -12.0))][k]
    ef = efacs[k]
    nf = 3
    lo = np.array([-9.0, -8.5, -8.0])
    s = white_signals.MeasurementNoise(efac=klass(ef[0], ef[1], None)) + gp_signals.FourierBasisGP(
        gp_priors.powerlaw(log10_A=klass(amp[0], amp[1], None), gamma=parameter.Uniform(0, 7)), components=2
    ) + gp_signals.FourierBasisGP(
        gp_priors.free_spectrum(log10_rho=parameter.LinearExp(lo, lo + 2.0, size=nf)), components=nf, name="fs"
    )
    pta = signal_base.PTA([s(psr)])
    P = psr.name
    ds = {P + "_efac": [Dist(*ef)], P + "_red_noise_log10_A": [Dist(*amp)], P + "_red_noise_gamma": [Dist("Uniform", (0.0, 7.0))],
          P + "_fs_log10_rho": [Dist("LinearExp", (a, a + 2.0)) for a in lo]}
    n, outs = 0, set()
    base = {x: [d.grid()[4] for d in dd] for x, dd in ds.items()}
    pts = [base] + [dict(base, **{x: [d.grid()[g] for d in dd]}) for x, dd in ds.items() for g in (0, 2, 3, 5, 6, 7)]
    for p in pts:
        with np.errstate(all="ignore"):
            want = sum(np.log(d.pdf(v)) for x in ds for d, v in zip(ds[x], p[x]))
            dic = {x: np.array(v) if len(v) > 1 else v[0] for x, v in p.items()}
            vec = np.array([v for x in sorted(p) for v in p[x]])
            got = [pta.get_lnprior(dic), pta.get_lnprior(vec)]
        if not all(same(float(g), want) for g in got):
            raise engine.Violation("log prior of %s at %s: %s, expected %s" % (ef, p, got, want))
        n += 2
        outs.add(engine.outcome_hash(want))
    if k < 2:
        for u0 in (0.1, 0.5, 0.93):
            u = np.array([(u0 + 0.17 * i) % 1.0 for i in range(len(vec))])
            got = np.asarray(pta.get_hypercube_transform(u))
            flat = [d for x in sorted(ds) for d in ds[x]]
            back = np.array([d.cdf(y) for d, y in zip(flat, got)])
            if got.shape != u.shape or np.max(np.abs(back - u)) > 1e-9:
                raise engine.Violation("unit cube point %s is mapped to %s, whose CDF is %s" % (u, got, back))
            n += 1
    return n, outs


def run_case(desc, seed):
    kind = desc["kind"]
    if kind == "cov":
        n, outs = cov_case(desc["i"], seed)
    elif kind == "user":
        n, outs = user_case(seed)
    elif kind == "errors":
        n, outs = error_case(seed)
    elif kind == "pta":
        n, outs = pta_case(desc["k"], seed)
    else:
        n, outs = one_case(desc, seed)
    return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(outs)[:50], "sample": desc}
