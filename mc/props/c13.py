"""C13: conditional GP coefficients and processes have the exact posterior mean and covariance."""

import numpy as np
import scipy.linalg as sl

from mc import engine, models, psrs, rng

LEVEL = "model_checking"
ASSUMPTIONS = [
    "no shared basis columns (combine=False), no marginalizing timing model, as documented",
    "normal draws come from the numpy module-level generator, which the harness answers",
    "agreement to 1e-5 of the posterior standard deviations",
]
BOUNDS = {
    "quick": "all models within 2 deviations of the base over 8 axes x 8 interfaces x all unit normal draws x 2 parameter points on one live object; pulsars with up to 1058 TOAs and 45 frequencies",
    "thorough": "all models within 4 deviations, 3 parameter points",
}

T = 1400.0 * 86400.0
SPECS = [
    dict(name="J0001+0001", layout="AB|A|BA|B|AA|BB", pos=0, seed=1),
    dict(name="B0002-0002", layout="B|AAB|A|BA|A", pos=1, seed=2, tm=["off", "F0"]),
    dict(name="J0003+0003", layout="ABA|B|A|B|AB", pos=2, seed=3, tm=["off"]),
    dict(name="J0008+0008", layout=psrs.long_layout(epochs=40), pos=3, seed=4, order="mix", span=2300.0, step=0.05),
    dict(name="J0009+0009", layout=psrs.long_layout("BA", 420), pos=[1.1, 0.3], seed=5, order="rev", span=3300.0, step=0.05),
]

BASE = dict(npsr=2, white="efac", tm="plain", priv="red", common="none", coeff="none", free="none", order="wn")
AXES = dict(
    npsr=[2, 1, 3, 4],
    white=["efac", "backend", "ecorr"],
    tm=["plain", "none", "svd", "raw"],
    priv=["red", "none", "back", "chrom", "dense", "se", "ecb", "two"],
    common=["none", "hd", "par", "densegw", "two", "one", "chromgw"],
    coeff=["none", "red", "half", "gw"],
    free=["none", "last", "first"],
    order=["wn", "rev", "rot"],
)


def comps(c):
    r = {"T": T, "combine": False}
    n = c["npsr"]
    # the pulsar without any basis
    skip = {"none": None, "last": n - 1, "first": 0}[c["free"]]
    who = {} if skip is None else {"psrs": [i for i in range(n) if i != skip]}
    ret = [["mn", {"sel": "backend"} if c["white"] == "backend" else {}]]
    if c["white"] == "ecorr":
        ret.append(["ecorr", {}])
    if c["priv"] == "big":
        ret.append(["red", dict(r, n=45, **who)])
    elif c["priv"] == "red":
        ret.append(["red", dict(r, n=2, **who)])
    elif c["priv"] == "two":
        ret += [["red", dict(r, n=2, **who)], ["red", dict(r, n=1, name="dm", basis="dm", **who)]]
    elif c["priv"] == "back":
        ret.append(["red", dict(r, n=1, sel="backend", **who)])
    elif c["priv"] == "chrom":
        ret.append(["red", dict(r, n=2, basis="chrom", vidx=1, name="chrom", **who)])
    elif c["priv"] == "dense":
        ret.append(["red", dict(r, n=2, spec="dense", **who)])
    elif c["priv"] == "se":
        ret.append(["se", dict(dt=450.0, combine=False, **who)])
    elif c["priv"] == "ecb":
        ret.append(["becorr", dict(sel="backend", **who)])
    if c["coeff"] == "red":
        ret.append(["red", dict(r, n=2, name="expl", coeff=1, **who)])
    elif c["coeff"] == "half":
        ret.append(["red", dict(r, n=1, name="expl", sel="half", coeff=1, **who)])
    elif c["coeff"] == "gw":
        ret.append(["gw", dict(r, n=2, name="expl", coeff=1, **who)])
    T2 = 0.83 * T
    if c["common"] in ("hd", "par"):
        ret.append(["gw", dict(r, T=T2, n=2, orf=c["common"], **who)])
    elif c["common"] == "two":
        ret += [["gw", dict(r, T=T2, n=2, orf="hd", **who)], ["gw", dict(r, T=0.61 * T, n=1, orf="par", name="clk", **who)]]
    elif c["common"] == "densegw":
        ret.append(["gw", dict(r, T=T2, n=2, orf="hd", spec="dense", **who)])
    elif c["common"] == "one":
        ret.append(["gw", dict(r, T=T2, n=2, orf="hd", psrs=[0] if skip != 0 else [n - 1])])
    elif c["common"] == "chromgw":
        ret.append(["gw", dict(r, T=T2, n=1, orf="hd", basis="chrom", **who)])
    if c["tm"] != "none":
        ret.append(["tm", dict({"plain": {}, "svd": {"svd": 1}, "raw": {"normed": False}}[c["tm"]], **who)])
    # the order in which the signals are added: white noise first, last or in between
    if c["order"] == "rev":
        ret = ret[::-1]
    elif c["order"] == "rot":
        ret = ret[1:] + ret[:1]
    return ret


def cases(tier, seed):
    cfgs = []
    for cfg in models.deviations(BASE, AXES, 2 if tier == "quick" else 4):
        if cfg["free"] != "none" and cfg["npsr"] == 1:
            continue
        if cfg["priv"] == "none" and cfg["tm"] == "none" and cfg["common"] in ("none", "one"):
            continue
        cfgs.append(cfg)
    for cfg in models.deviations(dict(BASE, common="hd"), AXES, 1 if tier == "quick" else 3):
        if not (cfg["free"] != "none" and cfg["npsr"] == 1) and cfg not in cfgs:
            cfgs.append(cfg)
    # 1058 TOAs, and processes with many coefficients
    for d in ({}, {"coeff": "red"}, {"tm": "svd"}, {"common": "hd"}, {"common": "par"}):
        cfgs.append(dict(BASE, npsr=5, **d))
    cfgs.append(dict(BASE, npsr=1, priv="big"))
    k = 3 if tier == "quick" else 8
    return [{"configs": cfgs[i : i + k]} for i in range(0, len(cfgs), k)]


_PSR = {}


def pulsars(seed):
    if seed not in _PSR:
        _PSR[seed] = [psrs.make_psr(psrs.spec(**s), seed) for s in SPECS]
    return _PSR[seed]


def posterior(model, pars, cfg):
    """[(name, pulsar, F, slice)], mean and covariance of all coefficients, by dense algebra."""
    accs = model.accs(pars)
    items, phis = [], []  # phis: per item (own prior)
    off = 0
    tmname = "linear_timing_model_svd" if cfg["tm"] == "svd" else "linear_timing_model"
    for ip, a in enumerate(accs):
        for tag, F, phi in a.gps:
            items.append((tag, ip, F))
        for tag, F, phi, orf, ex in a.common:
            items.append((a.psr.name + "_" + tag, ip, F))
        for M in a.M:
            items.append((a.psr.name + "_" + tmname, ip, M))
    slices = []
    for tag, ip, F in items:
        slices.append(slice(off, off + F.shape[1]))
        off += F.shape[1]
    Phi = np.zeros((off, off))
    loc = {(tag, ip): s for (tag, ip, F), s in zip(items, slices)}
    proper = np.ones(off, bool)
    for ip, a in enumerate(accs):
        for tag, F, phi in a.gps:
            s = loc[(tag, ip)]
            Phi[s, s] = np.diag(phi) if phi.ndim == 1 else phi
        for M in a.M:
            proper[loc[(a.psr.name + "_" + tmname, ip)]] = False
        for jp, b in enumerate(accs):
            for ta, Fa, pa, orf, ex in a.common:
                for tb, Fb, pb, _, _ in b.common:
                    if ta == tb:
                        o = models.orf_value(orf, ip, jp, a.psr.pos, b.psr.pos, ip == jp, ex)
                        Phi[loc[(a.psr.name + "_" + ta, ip)], loc[(b.psr.name + "_" + tb, jp)]] = o * (
                            np.diag(pa) if pa.ndim == 1 else pa
                        )
    P = np.zeros((off, off))
    ix = np.flatnonzero(proper)
    if len(ix):
        d = np.sqrt(np.diag(Phi)[ix])
        P[np.ix_(ix, ix)] = np.linalg.inv(Phi[np.ix_(ix, ix)] / d[:, None] / d[None, :]) / d[:, None] / d[None, :]
    P[~proper, ~proper] = 1e-40
    TNT, TNr = np.zeros((off, off)), np.zeros(off)
    for ip, a in enumerate(accs):
        C = np.diag(a.N) + a.K
        s = np.sqrt(np.diag(C))
        L = np.linalg.cholesky(C / s[:, None] / s[None, :])
        Tm = np.zeros((a.n, off))
        for (tag, jp, F), sl_ in zip(items, slices):
            if jp == ip:
                Tm[:, sl_] = F
        Y = sl.solve_triangular(L, Tm / s[:, None], lower=True)
        y = sl.solve_triangular(L, (a.psr.residuals - a.delay) / s, lower=True)
        TNT += Y.T @ Y
        TNr += Y.T @ y
    S = TNT + P
    d = 1 / np.sqrt(np.diag(S))
    cov = np.linalg.inv(S * d[:, None] * d[None, :])
    mean = d * (cov @ (d * TNr))
    return items, slices, mean, cov * d[:, None] * d[None, :]


def check(label, cfg, names, slices, got, want, sd):
    """got: dict name -> vector; want: vector of all the coefficients."""
    for nm, s in zip(names, slices):
        g = np.asarray(got[nm], dtype="d")
        if g.shape != want[s].shape or not np.all(np.abs(g - want[s]) <= 1e-5 * sd[s] + 1e-6 * np.abs(want[s])):
            raise engine.Violation("%s: %s is %s, expected %s (%s)" % (label, nm, g, want[s], cfg))


def run_config(cfg, seed, nvar):
    from enterprise.signals import utils

    model = models.Model(comps(cfg), pulsars(seed)[: cfg["npsr"]])
    pta = model.pta()
    free, _ = model.names()
    nops, outs = 0, []
    methods = ["cliques", "sparse"] + ([] if cfg["common"] == "densegw" else ["partition"])
    cgps = {m: utils.ConditionalGP(pta, phiinv_method=m) for m in methods}
    gc = {(m, s): (lambda p, n, v, m=m, s=s: utils.get_coefficients(pta, p, n=n, phiinv_method=m, variance=v, common_sparse=s))
          for m in methods for s in (False, True)}
    buffer = {}
    for variant in list(range(nvar)) + [0]:
        buffer.update(models.values(free, variant, seed))  # the caller updates one dictionary
        pars = buffer
        items, slices, mean, cov = posterior(model, dict(pars), cfg)
        names = [t + "_coefficients" for t, _, _ in items]
        sd = np.sqrt(np.diag(cov))
        outs.append(engine.outcome_hash(mean / sd))

        def complete(label, got, gp=False):
            want = {t if gp else t + "_coefficients" for t, _, _ in items}
            have = set(got) - (set(pars) if label.startswith("get_coefficients") else set())
            if have != want:
                raise engine.Violation("%s reports %s, expected %s (%s)" % (label, sorted(have), sorted(want), cfg))
            if label.startswith("get_coefficients"):
                for k, v in pars.items():
                    if not np.array_equal(got[k], v):
                        raise engine.Violation("%s changed the parameter %s" % (label, k))

        def process(label, got, want):
            for (t, ip, F), s in zip(items, slices):
                g, w = np.asarray(got[t]), F @ want[s]
                tol = 1e-5 * np.sqrt(np.einsum("ij,jk,ik->i", F, cov[s, s], F)) + 1e-5 * np.sqrt(np.abs(F) ** 2 @ sd[s] ** 2)
                if g.shape != w.shape or not np.all(np.abs(g - w) <= tol + 1e-5 * np.max(np.abs(w))):
                    raise engine.Violation("%s: process %s is not basis times coefficients (%s)" % (label, t, cfg))

        first = variant == 0
        for m in methods:
            label = "mean_coefficients[%s]" % m
            got = cgps[m].get_mean_coefficients(pars)
            complete(label, got)
            check(label, cfg, names, slices, got, mean, sd)
            got = cgps[m].get_mean_processes(pars)
            complete("mean_processes", got, gp=True)
            process("mean_processes[%s]" % m, got, mean)
            nops += 2
        for (m, s), f in gc.items():
            label = "get_coefficients[%s,sparse=%s]" % (m, s)
            got = f(dict(pars), 1, False)
            complete(label, got)
            check(label, cfg, names, slices, got, mean, sd)
            nops += 1
        # the linear map from normal draws to coefficients
        todo = {"sample[%s]" % m: (lambda n, m=m: cgps[m].sample_coefficients(pars, n=n)) for m in methods}
        todo.update({"get_coefficients[%s,%s]" % k: (lambda n, f=f: f(dict(pars), n, True)) for k, f in gc.items()})
        if not first:
            keep = [k for k in todo if "cliques" in k]
            todo = {k: todo[k] for k in keep}
        for label, f in todo.items():
            lst = lambda r: r if isinstance(r, list) else [r]  # noqa: E731
            vec = lambda d: np.concatenate([np.atleast_1d(d[n]) for n in names])  # noqa: E731
            with rng.controlled(normals=iter(lambda: 0.0, 1), limit=10000) as feed:
                d0 = lst(f(1))
            m = len(feed.used_z)
            complete(label, d0[0])
            check(label + " of zero normals", cfg, names, slices, d0[0], mean, sd)
            # the linear map of nd draws, one unit normal at a time
            for nd in (1, 2):
                if nd == 2 and not first:
                    continue
                rows = []
                for k in range(nd * m):
                    unit = [1.0 if i == k else 0.0 for i in range(nd * m)]
                    with rng.controlled(normals=unit, limit=nd * m) as feed:
                        ds = lst(f(nd))
                    if len(ds) != nd or len(feed.used_z) != nd * m:
                        raise engine.Violation("%s: asked for %d draws, got %d from %d normals" % (label, nd, len(ds), len(feed.used_z)))
                    rows.append(np.concatenate([vec(d) - mean for d in ds]))
                A = np.array(rows).T
                err = (A @ A.T - sl.block_diag(*[cov] * nd)) / np.outer(np.tile(sd, nd), np.tile(sd, nd))
                nops += nd * m
                if not np.all(np.abs(err) < 2e-5):
                    raise engine.Violation(
                        "%s: the covariance of %d draws is not the conditional covariance (worst entry off by %.2g of the standard "
                        "deviations, %s)" % (label, nd, np.max(np.abs(err)), cfg)
                    )
        with rng.controlled(normals=[0.3 * (-1) ** k * (1 + k % 5) for k in range(4000)], limit=4000):
            co = cgps["cliques"].sample_coefficients(pars, n=2)
        with rng.controlled(normals=[0.3 * (-1) ** k * (1 + k % 5) for k in range(4000)], limit=4000):
            gp = cgps["cliques"].sample_processes(pars, n=2)
        for c, g in zip(co, gp):
            complete("sample_processes", g, gp=True)
            process("sample_processes", g, np.concatenate([np.atleast_1d(c[n]) for n in names]))
        nops += 2

    # single timing-model parameters under their own names
    if cfg["npsr"] == 1 and cfg["tm"] in ("plain", "raw"):
        psr = model.psrs[0]
        pars = models.values(free, 0, seed)
        items, slices, mean, cov = posterior(model, pars, cfg)
        k = [t for t, _, _ in items].index(psr.name + "_linear_timing_model")
        for sub in (["F0"], ["F1", "F0"]):
            cgp = utils.ConditionalGP(pta, tm_params=sub, psr=psr)
            co, gp = cgp.get_mean_coefficients(pars), cgp.get_mean_processes(pars)
            for p in sub:
                i = list(psr.fitpars).index(p)
                c = mean[slices[k]][i]
                s = np.sqrt(np.diag(cov)[slices[k]][i])
                w = items[k][2][:, i] * c
                if abs(co[psr.name + "_" + p + "_coefficients"] - c) > 1e-5 * s + 1e-6 * abs(c):
                    raise engine.Violation("coefficient of %s" % p)
                if np.max(np.abs(gp[psr.name + "_" + p] - w)) > 1e-5 * np.max(np.abs(items[k][2][:, i] * s)) + 1e-5 * np.max(np.abs(w)):
                    raise engine.Violation("process of %s" % p)
            nops += 2
    return outs, nops


def run_case(desc, seed):
    outs, n = set(), 0
    for cfg in desc["configs"]:
        o, k = run_config(cfg, seed, 2 if len(desc["configs"]) <= 3 else 3)
        outs.update(o)
        n += k
    return {"states": len(desc["configs"]), "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(outs),
            "sample": desc["configs"][0]}
