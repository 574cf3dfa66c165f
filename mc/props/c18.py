"""C18: the wideband timing model is the joint likelihood of TOAs and DM measurements."""

import itertools

import numpy as np
import scipy.linalg as sl

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "4-7 wideband TOAs, up to 3 DMX intervals with edges between, at, before and after TOAs",
    "log likelihoods agree to 1e-3 absolute plus 1e-7 relative (the DM terms cancel from about 1e9)",
]
BOUNDS = {
    "quick": "acceptance: all triples and pairs of intervals over 4 TOAs (edges on a 5-point lattice); likelihood: all accepted ones x 4 "
    "backend assignments; all models within 2 deviations over 8 axes (selections, parameter kinds, order, other signals)",
    "thorough": "acceptance also over 5 TOAs, likelihood for all 2^n backend assignments, 3 deviations",
}

T = 1400.0 * 86400.0
KF = 2.41e-4


def make(layout, bins, seed, tmorder=("off", "F0", "DMX"), perm=None, at=False, order="sorted", sort=True, extra=(), name="J0001+0001",
         pos=0, values=None):
    """bins: list of (lo, hi) on the lattice 0..n (an edge k lies before the k-th TOA in time)."""
    base = psrs.spec(name=name, pos=pos, layout=layout, wideband=1, tm=["off"], order=order, sort=sort, span=900.0)
    pre = psrs.seeded_raw(base, seed)
    st = np.sort(pre["stoas"] * 86400.0) / 86400.0
    n = len(st)
    gap = np.diff(st)

    def edge(k):
        if k == 0:
            return st[0] if at else st[0] - 3.0
        if k == n:
            return st[-1] + 3.0
        return st[k] if at else st[k] - 0.5 * gap[k - 1]

    labels = ["DMX_%04d" % (i + 1) for i in range(len(bins))]
    if perm:
        labels = [labels[i] for i in perm]
    dmx = {lb: (edge(lo), edge(hi)) for lb, (lo, hi) in zip(labels, bins)}
    tm = []
    for c in tmorder:
        tm += sorted(dmx, reverse=True) if c == "XMD" else sorted(dmx) if c == "DMX" else [c]
    raw = psrs.seeded_raw(dict(base, tm=tm, dmx=dmx), seed)
    t = raw["stoas"] * 86400.0 / 86400.0
    which = {lb: (dmx[lb][0] <= t) & (t < dmx[lb][1]) for lb in dmx}
    for i, c in enumerate(tm):
        if c in which:
            raw["designmatrix"][:, i] = which[c] / (KF * (raw["freqs_hz"] / 1e6) ** 2)
    raw["fitpars"] = [c for c in raw["fitpars"]] + [e for e in extra]
    if extra:
        raw["designmatrix"] = np.hstack([raw["designmatrix"], np.sin(np.arange(len(t)))[:, None]])
    psr = psrs.from_raw(raw, sort=sort)
    iso = np.argsort(raw["toas"], kind="mergesort") if sort else np.arange(len(t))
    return psr, {lb: w[iso] for lb, w in which.items()}, raw, iso


def valid(bins, n):
    return all(sum(lo <= i < hi for lo, hi in bins) == 1 for i in range(n))


AXES = dict(
    sel=["none", "backend", "band", "half"],
    jsel=["off", "backend", "fe"],
    ref=["no", "yes", "part"],
    equad=["u", "no", "c"],
    efac=["u", "c", "cs", "v"],
    order=["sorted", "mix", "rev"],
    tm=["plain", "last", "first", "mixed"],
    other=["red", "none", "ecorr", "wave", "hd", "dmgp"],
    bins=["two", "three", "swap", "one", "at", "empty", "many"],
)
BASE = {k: v[0] for k, v in AXES.items()}


def cases(tier, seed):
    ret = []
    pairs = lambda n: [(a, b) for a in range(n + 1) for b in range(a, n + 1)]  # noqa: E731
    for n in (4,) if tier == "quick" else (4, 5):
        ps = pairs(n)
        for b in ps:
            ret.append({"accept": [[b], [b]], "n": n})
        for b1 in ps:
            ret.append({"accept2": b1, "n": n})
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        nb = 2**n
        for k in range(nb) if tier == "thorough" else sorted({0, 1, nb // 2 + 1, nb - 2}):
            ret.append({"layouts": n, "backends": k})
    cfgs = [c for c in models.deviations(BASE, AXES, 2 if tier == "quick" else 3)
            if not (c["ref"] != "no" and c["jsel"] == "off")]
    ret += [{"configs": cfgs[i : i + 6]} for i in range(0, len(cfgs), 6)]
    ret.append({"reject": 1})
    return ret


def signal(cfg, seed):
    from enterprise.signals import gp_signals, parameter

    par = {
        "u": lambda kw: parameter.Uniform(*models.DOMAIN[kw]),
        "c": lambda kw: parameter.Constant(models.const_value(kw)),
        "cs": lambda kw: parameter.Constant(),
        "v": lambda kw: parameter.Constant(models.const_value(kw)),
    }
    kw = dict(
        dmefac=par[cfg["efac"]]("dmefac"),
        log10_dmequad=None if cfg["equad"] == "no" else par[cfg["equad"]]("log10_dmequad"),
        selection=models.make_selection(cfg["sel"]),
        dmjump=None,
    )
    if cfg["jsel"] != "off":
        kw.update(dmjump=par["u"]("dmjump"), dmjump_selection=models.make_selection(cfg["jsel"]))
        if cfg["ref"] == "part":
            kw["dmjump_ref"] = {"backend": "Rcvr1_2", "fe": "L"}[cfg["jsel"]]  # no such label: no reference
        if cfg["ref"] == "yes":
            kw["dmjump_ref"] = {"backend": "Rcvr1_2_GUPPI", "fe": "L-wide"}[cfg["jsel"]]
    return gp_signals.WidebandTimingModel(**kw)


def declared(cfg, psr):
    free, const = {}, {}
    for k in models.masks(cfg["sel"], psr):
        pre = models.join(psr.name, k)
        (free if cfg["efac"] == "u" else const)[pre + "_dmefac"] = None
        if cfg["equad"] != "no":
            (free if cfg["equad"] == "u" else const)[pre + "_log10_dmequad"] = None
    if cfg["jsel"] != "off":
        for k in models.masks(cfg["jsel"], psr):
            if cfg["ref"] == "yes" and k in ("Rcvr1_2_GUPPI", "L-wide"):
                const[models.join(psr.name, k, "dmjump")] = 0.0
            else:
                free[models.join(psr.name, k, "dmjump")] = None
    return free, const


def dm_model(cfg, psr, raw, iso, pars):
    """DM measurements (jumps applied) and their errors."""
    n = len(iso)
    dm = np.array([float(x) for x in raw["flags"]["pp_dm"]])[iso]
    err = np.array([float(x) for x in raw["flags"]["pp_dme"]])[iso]
    ef, eq, jump = np.zeros(n), np.zeros(n), np.zeros(n)
    for k, m in models.masks(cfg["sel"], psr).items():
        pre = models.join(psr.name, k)
        ef[m] = pars.get(pre + "_dmefac", models.const_value("dmefac"))
        if cfg["equad"] != "no":
            eq[m] = 10 ** pars.get(pre + "_log10_dmequad", models.const_value("log10_dmequad"))
    if cfg["jsel"] != "off":
        for k, m in models.masks(cfg["jsel"], psr).items():
            jump[m] = pars.get(models.join(psr.name, k, "dmjump"), 0.0)
    return dm + jump, ef * np.sqrt(err**2 + eq**2)


def lnlike(model, items, cfg, pars):
    """Joint Gaussian of all residuals and DM measurements; DMX flat, other timing parameters N(0, 1e40)."""
    accs = model.accs(pars)
    C, off = models.joint_cov(accs)
    r = np.concatenate([a.psr.residuals - a.delay for a in accs])
    n = len(r)
    Cs, ys, designs, nflat = [C], [r], [], 0
    tot = n + sum(len(it[0].toas) for it in items)
    row = n
    for i, (psr, which, raw, iso) in enumerate(items):
        dm, dme = dm_model(cfg, psr, raw, iso, pars)
        x0 = np.zeros(len(iso))
        for lb, w in which.items():
            x0[w] = psr.dm + raw["vals"][lb].val
        Cs.append(np.diag(dme**2))
        ys.append(dm - x0)
        M = raw["designmatrix"][iso]
        for j in range(M.shape[1]):
            col = np.zeros(tot)
            col[off[i] : off[i + 1]] = M[:, j]
            lb = (["Offset"] + raw["fitpars"])[j] if True else None
            if lb in which:
                if not which[lb].any():
                    continue  # no TOA, no effect
                col[row : row + len(iso)] = which[lb]
            else:
                nflat += 1
            designs.append(col)
        row += len(iso)
    C = sl.block_diag(*Cs)
    y = np.concatenate(ys)
    D = np.array(designs).T
    s = np.sqrt(np.diag(C))
    L = np.linalg.cholesky(C / s[:, None] / s[None, :])
    ld = 2 * np.sum(np.log(np.diag(L))) + 2 * np.sum(np.log(s))
    z = sl.solve_triangular(L, y / s, lower=True)
    Z = sl.solve_triangular(L, D / s[:, None], lower=True)
    sc = np.sqrt(np.sum(Z**2, axis=0))
    Q, R = np.linalg.qr(Z / sc)
    for _ in range(2):
        z = z - Q @ (Q.T @ z)
    ld += 2 * np.sum(np.log(np.abs(np.diag(R)))) + 2 * np.sum(np.log(sc)) + nflat * np.log(1e40)
    return -0.5 * float(z @ z) - 0.5 * ld


def check(items, cfg, comps, seed, nvar=2):
    from enterprise.signals import signal_base

    ps = [it[0] for it in items]
    model = models.Model(comps, ps)
    wb = signal(cfg, seed)
    pta = signal_base.PTA([(model.metamodel(i) + wb)(p) for i, p in enumerate(ps)])
    free, const = model.names()
    set_later = {}
    for p in ps:
        f, c = declared(cfg, p)
        free.update(f)
        set_later.update({k: v for k, v in c.items()})
    if sorted(free) != pta.param_names:
        raise engine.Violation("free parameters %s, expected %s (%s)" % (pta.param_names, sorted(free), cfg))
    cvals = {}
    if cfg["efac"] == "cs":
        cvals = {k: models.value(k, None, 7, seed) for k in set_later if k.endswith("dmefac")}
        pta.set_default_params(cvals)
    n, outs = 0, []
    sigs = [m._signals[-1] if hasattr(m, "_signals") else m.signals[-1] for m in pta.pulsarmodels]
    points = [models.values(free, v, seed) for v in list(range(nvar)) + [0]]
    if nvar > 1:  # change one kind of parameter at a time
        for kind in ("dmefac", "log10_dmequad", "dmjump", ""):
            q = models.values(free, 1, seed)
            points.append({k: q[k] if k.endswith(kind) and (kind or "_dm" not in k) else x for k, x in points[0].items()})
    for pars in points:
        allp = dict(cvals, **pars)
        got = pta.get_lnlikelihood(pars)
        want = lnlike(model, items, cfg, allp)
        n += 1
        if not abs(got - want) <= 1e-3 + 1e-7 * abs(want):
            raise engine.Violation("log likelihood %r, joint Gaussian of TOAs and DMs %r (%s, DMX intervals %s)"
                                   % (got, want, cfg, {k: w.astype(int).tolist() for k, w in items[0][1].items()}))
        outs.append(engine.outcome_hash(want))
        for sig, (psr, which, raw, iso) in zip(sigs, items):
            dm, dme = dm_model(cfg, psr, raw, iso, allp)
            mdm, mdme, x0 = np.zeros(len(iso)), np.zeros(len(iso)), np.zeros(len(iso))
            chi = 0.0
            for lb, w in which.items():
                if w.any():
                    mdm[w] = np.sum(dm[w] / dme[w] ** 2) / np.sum(1 / dme[w] ** 2)
                    mdme[w] = np.sqrt(1 / np.sum(1 / dme[w] ** 2))
                    x0[w] = psr.dm + raw["vals"][lb].val
                    chi += ((mdm[w] - x0[w])[0] / mdme[w][0]) ** 2
            for lab, g, w in [
                ("get_dm", sig.get_dm(pars), dm), ("get_dme", sig.get_dme(pars), dme), ("get_mean_dm", sig.get_mean_dm(pars), mdm),
                ("get_mean_dme", sig.get_mean_dme(pars), mdme), ("get_delta_dm", sig.get_delta_dm(pars), dm - x0),
                ("get_delta_dm(mean)", sig.get_delta_dm(pars, use_mean_dm=True), mdm - x0),
                ("get_dm_chi2", sig.get_dm_chi2(pars), np.sum(((dm - x0) / dme) ** 2)),
                ("get_dm_chi2(mean)", sig.get_dm_chi2(pars, use_mean_dm=True), chi),
            ]:
                if np.shape(g) != np.shape(w) or not np.allclose(g, w, rtol=1e-6, atol=1e-11):
                    raise engine.Violation("%s is %s, expected %s (%s)" % (lab, g, w, cfg))
            n += 8
    return n, outs


def accepted(cfg, psr, seed):
    try:
        signal(cfg, seed)(psr)
        return True
    except ValueError:
        return False


def run_case(desc, seed):
    n, outs, states = 0, [], 0
    plain = dict(BASE)
    if "accept" in desc or "accept2" in desc:
        N = desc["n"]
        lat = [(a, b) for a in range(N + 1) for b in range(a, N + 1)]
        if "accept" in desc:
            sets = [[desc["accept"][0][0]]]
        else:
            sets = [[desc["accept2"], b2] for b2 in lat] + [[desc["accept2"], b2, b3] for b2 in lat for b3 in lat]
        for bins in sets:
            for at in (False, True) if len(bins) < 3 else (False,):
                item = make("|".join("AB"[i % 2] for i in range(N)), bins, seed, at=at)
                got, want = accepted(plain, item[0], seed), valid(bins, N)
                states += 1
                if got != want:
                    raise engine.Violation("DMX intervals %s over %d TOAs: %s" % (bins, N, "accepted" if got else "rejected"))
                n += 1
        return {"states": states, "transitions": n, "evaluations": n, "traces": n, "outcomes": [str(want)], "sample": {"bins": bins}}

    if "layouts" in desc:
        # all the ways to cut n TOAs in up to three consecutive intervals, one backend assignment
        N = desc["layouts"]
        layout = "|".join("AB"[(desc["backends"] >> i) & 1] for i in range(N))
        for nb in (1, 2, 3):
            for cuts in itertools.combinations_with_replacement(range(N + 1), nb - 1):
                edges = [0] + list(cuts) + [N]
                bins = list(zip(edges[:-1], edges[1:]))
                for perm in itertools.permutations(range(nb)):
                    item = make(layout, bins, seed, perm=list(perm))
                    c = dict(plain, sel="backend", jsel="backend" if len(set(layout)) > 2 else "off", other="none")
                    k, o = check([item], c, [["mn", {"sel": "backend"}]], seed, nvar=1)
                    n += k
                    outs += o
                    states += 1
        return {"states": states, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(set(outs)),
                "sample": {"layout": layout, "bins": bins}}

    if "reject" in desc:
        from enterprise.signals import gp_signals, parameter

        item = make("A|B|A", [(0, 2), (2, 3)], seed)
        if not accepted(plain, item[0], seed):
            raise engine.Violation("valid DMX intervals are rejected")
        for k in range(2):
            item = make("A|B|A", [(0, 2), (2, 3)], seed)
            sorted(item[0].dmx.items())[k][1]["fit"] = False
            if accepted(plain, item[0], seed):
                raise engine.Violation("a DMX parameter that is not fitted is accepted")
        item = make("A|B|A", [(0, 2), (2, 3)], seed, extra=["DM"])
        if accepted(plain, item[0], seed):
            raise engine.Violation("a fit of DM is accepted")
        item = make("A|B|A", [(0, 2), (2, 3)], seed)
        try:
            gp_signals.WidebandTimingModel(dmjump=parameter.Uniform(0, 1))(item[0])
            raise engine.Violation("DMJUMP without a selection is accepted")
        except ValueError:
            pass
        return {"states": 5, "transitions": 5, "evaluations": 5, "traces": 5, "outcomes": ["reject"]}

    for cfg in desc["configs"]:
        lay = "AB|A|BA|B|AA"
        N = 8
        if cfg["bins"] == "many":
            lay, N = "|".join(["AB", "A", "B", "AAB", "BA", "AB"] * 3)[:-3], 31
            lay = lay + "|A"
            N = len(lay.replace("|", ""))
        bins, perm, at = {
            "two": ([(0, 4), (4, N)], None, False), "three": ([(0, 2), (2, 5), (5, N)], None, False),
            "swap": ([(0, 3), (3, 5), (5, N)], [2, 0, 1], False), "one": ([(0, N)], None, False),
            "at": ([(0, 3), (3, N)], None, True), "empty": ([(0, 3), (3, 3), (3, N)], [1, 0, 2], False),
            "many": ([(2 * k, 2 * k + 2) for k in range(11)] + [(22, N)], [11, 5, 3, 9, 0, 1, 2, 4, 6, 7, 8, 10], False),
        }[cfg["bins"]]
        tmorder = {"plain": ("off", "F0", "DMX"), "last": ("off", "DMX", "F0", "F1"), "first": ("off", "XMD", "F0"),
                   "mixed": ("off", "F1", "XMD", "F0")}[cfg["tm"]]
        sort = cfg["order"] != "mix"
        items = [make(lay, bins, seed, tmorder=tmorder, perm=perm, at=at, order=cfg["order"], sort=sort)]
        R = {"T": T, "n": 2}
        comps = [["mn", {"sel": "backend"}]] + {
            "none": [], "red": [["red", dict(R)]], "ecorr": [["ecorr", {"sel": "backend", "method": "sherman-morrison"}]],
            "wave": [["wave", {}], ["red", dict(R)]], "hd": [["gw", dict(R)], ["red", dict(R)]],
            "dmgp": [["red", dict(R, basis="dm", name="dm")], ["red", dict(R, basis="chrom", vidx=1, name="chrom")]],
        }[cfg["other"]]
        if cfg["other"] == "hd":
            items.append(make("B|AAB|A|BAB", [(0, 4), (4, 8)], seed, name="J0002+0002", pos=1, order=cfg["order"], sort=sort))
        k, o = check(items, cfg, comps, seed)
        n += k
        outs += o
        states += 1
    return {"states": states, "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(set(outs)), "sample": desc["configs"][0]}
