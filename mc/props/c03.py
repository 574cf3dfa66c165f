"""C03: order and grouping of signals and pulsars do not matter."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["fixed families of up to five signals (six in thorough), pulsars of 5-8 TOAs, two parameter points"]
BOUNDS = {
    "quick": "all permutations x all binary groupings of the 4-5 signals of every family (3 of the groupings for the family of "
    "5 signals on 2 pulsars), all permutations and additive constructions of 3 pulsar models",
    "thorough": "same with all groupings for all families and one of six signals (720 permutations x 42 groupings)",
}

T = 1400.0 * 86400.0
P1 = dict(name="J0001+0001", layout="AB|A|BA|B|AA", pos=0, seed=1)
P2 = dict(name="B0002-0002", layout="B|AAB|A|BA", pos=1, seed=2, tm=["off", "F0"])
P3 = dict(name="J0003+0003", layout="ABAB|B|A|B", pos=2, seed=3)
POS = dict(name="J0005+0005", layout="A|B|BA", pos=3, seed=4)


def fams(tier):
    red = {"T": T, "n": 2}
    F = {}
    F["white"] = ([["mn", {"sel": "backend", "eq": 1}], ["tneq", {"sel": "band"}], ["mn", {"name": "two"}], ["wave", {}]], [P1])
    for m in ("sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
        F["ecorr-" + m] = ([["ecorr", {"sel": "backend", "method": m}], ["mn", {"sel": "backend"}], ["tneq", {}], ["tm", {}]], [P1])
        F["marg-" + m] = ([["ecorr", {"method": m}], ["tm", {"marg": 1}], ["mn", {"eq": 1}], ["red", dict(red)]], [P1])
    F["becorr"] = ([["mn", {}], ["becorr", {"sel": "backend"}], ["tm", {}], ["red", dict(red, basis="chrom", vidx=1)]], [P1])
    F["share"] = ([["mn", {}], ["red", dict(red)], ["red", dict(red, name="r3", n=3, spec="free")],
                   ["red", dict(red, name="rv", basis="chrom", vidx=1)]], [P1])
    F["dense"] = ([["mn", {}], ["se", {"dt": 450.0}], ["red", dict(red, spec="dense")], ["red", dict(red, name="r2", n=3)]], [P1])
    F["hd"] = ([["mn", {}], ["tm", {}], ["red", dict(red, n=3)], ["gw", dict(red)]], [P1, P2])
    F["hd2"] = ([["mn", {}], ["gw", dict(red, name="g2", n=3, orf="mono")], ["red", dict(red, sel="half")], ["gw", dict(red)]],
                [P1, P2])
    F["coeff"] = ([["mn", {}], ["red", dict(red, coeff=1)], ["tm", {"marg": 1}], ["wave", {"sel": "band"}]], [P1])
    F["hd3"] = ([["red", dict(red, name="rc", coeff=1)], ["mn", {}], ["red", dict(red)], ["gw", dict(red, name="g2", orf="par")]], [P1, P2])
    F["gw3"] = ([["gw", dict(red, name="g1")], ["tm", {}], ["gw", dict(red, name="g2", orf="mono", T=0.7 * T)], ["mn", {}]], [P1, P2, P3])
    F["waves"] = ([["mn", {}], ["wave", {}], ["wave", {"sel": "band", "name": "w2"}], ["wave", {"sel": "backend", "name": "w3"}]], [P1])
    F["five"] = ([["mn", {"sel": "backend"}], ["ecorr", {"method": "sparse"}], ["tm", {"marg": 1}], ["red", dict(red)],
                      ["red", dict(red, name="dm", basis="chrom", vidx=1)]], [P1])
    F["fivehd"] = ([["mn", {}], ["tm", {}], ["red", dict(red, n=3)], ["gw", dict(red)], ["wave", {}]], [P1, P2])
    if tier == "thorough":
        F["six"] = ([["mn", {"sel": "backend"}], ["ecorr", {"method": "block"}], ["tm", {}], ["red", dict(red)],
                     ["red", dict(red, name="dm", basis="chrom", vidx=1)], ["se", {"dt": 450.0}]], [P1])
    return F


def trees(n):
    """All binary trees over leaves 0..n-1 in order, as nested tuples."""
    if n == 1:
        return [0]

    def build(lo, hi):
        if hi - lo == 1:
            return [lo]
        ret = []
        for mid in range(lo + 1, hi):
            for a in build(lo, mid):
                for b in build(mid, hi):
                    ret.append((a, b))
        return ret

    return build(0, n)


def fold(tree, items):
    if isinstance(tree, (list, tuple)):
        return fold(tree[0], items) + fold(tree[1], items)
    return items[tree]


def cases(tier, seed):
    ret = []
    for f, (comps, ps) in fams(tier).items():
        for perm in itertools.permutations(range(len(comps))):
            ret.append({"kind": "signals", "family": f, "perm": perm, "tier": tier})
    for perm in itertools.permutations(range(3)):
        for style in range(6):
            ret.append({"kind": "pulsars", "perm": perm, "style": style})
    return ret


def check(pta, model, seed, what):
    free, _ = model.names()
    names = sorted(free)
    got = [p.name for p in pta.params]
    if got != names:
        raise engine.Violation("%s: free parameters %s, expected %s" % (what, got, names))
    out = []
    for variant in (0, 1):
        pars = models.values(free, variant, seed)
        expected = models.lnlike(model.accs(pars))
        lnl = pta.get_lnlikelihood(pars)
        if abs(lnl - expected) > 1e-6 * (abs(expected) + 10):
            raise engine.Violation("%s: log likelihood %r, dense reference %r" % (what, lnl, expected))
        width = {n: 21 * (models.DOMAIN[models.kind_of(n)][1] - models.DOMAIN[models.kind_of(n)][0]) for n in names}
        if any(n.endswith("coefficients") for n in names):  # Gaussian prior (C19): compare with the plain construction
            prior = model.pta().get_lnprior(pars)
        else:
            prior = -sum((free[n] or 1) * np.log(width[n]) for n in names)
        lnp = pta.get_lnprior(pars)
        if abs(lnp - prior) > 1e-9 * (1 + abs(prior)):
            raise engine.Violation("%s: log prior %r, expected %r" % (what, lnp, prior))
        out.append(expected)
    return out


def run_case(desc, seed):
    if desc["kind"] == "pulsars":
        return run_pulsars(desc, seed)
    from enterprise.signals import signal_base

    comps, specs = fams(desc["tier"])[desc["family"]]
    ps = [psrs.make_psr(psrs.spec(**s), seed) for s in specs]
    model = models.Model(comps, ps)
    items = [model.comps[k].signal() for k in desc["perm"]]
    alltrees = trees(len(items))
    if desc["tier"] == "quick" and len(ps) > 1 and len(items) > 4:
        alltrees = alltrees[:: max(1, len(alltrees) // 2)]
    outs, n = [], 0
    # sums may also start from a single-signal collection, or be built with sum()-style reuse of partial sums
    forms = [(t, items) for t in alltrees]
    forms.append((alltrees[-1], [signal_base.SignalCollection([s]) for s in items]))
    forms.append((alltrees[0], [signal_base.SignalCollection([items[0]])] + items[1:]))
    for tree, its in forms:
        s = fold(tree, its)
        pta = signal_base.PTA([s(p) for p in ps])
        what = "order %s grouping %s" % (desc["perm"], tree)
        outs += check(pta, model, seed, what)
        # the collection lists its signals in the order of addition
        ids = [x.signal_id for x in pta.pulsarmodels[0].signals]
        want = [c.signal_id for c in [model.comps[k].signal() for k in desc["perm"]]]
        if ids != want or list(pta.pulsarmodels[0].keys()) != want or len(pta.pulsarmodels[0]) != len(want):
            raise engine.Violation("%s: signals listed as %s, expected %s" % (what, ids, want))
        n += 1
    # a partial sum used twice stays what it is
    if len(items) >= 3:
        part = items[0] + items[1]
        full1 = part + items[2]
        full2 = items[2] + part
        k = len(part(ps[0]).signals)
        if k != 2 or len(full1(ps[0]).signals) != 3 or len(full2(ps[0]).signals) != 3:
            raise engine.Violation("adding to a partial sum changed the partial sum (%d signals)" % k)
        n += 3
    return {"states": n, "transitions": 2 * n, "evaluations": 2 * n, "traces": n,
            "outcomes": [engine.outcome_hash(o) for o in outs], "sample": {"lnlikelihood": outs[0]}}


def run_pulsars(desc, seed):
    from enterprise.signals import signal_base

    red = {"T": T, "n": 2}
    comps = [["mn", {"sel": "backend"}], ["tm", {}], ["red", dict(red, n=3)], ["gw", dict(red)],
             ["gw", dict(red, name="g2", orf="mono", psrs=[0, 2])]]
    ps = [psrs.make_psr(psrs.spec(**s), seed) for s in (P1, P2, P3)]
    model = models.Model(comps, ps)
    cls = signal_base.LogLikelihoodDenseCholesky if desc["style"] % 2 else signal_base.LogLikelihood
    m = [model.metamodel(i)(ps[i]) for i in range(3)]
    a, b, c = [m[i] for i in desc["perm"]]
    PTA = lambda x: signal_base.PTA(x, lnlikelihood=cls)  # noqa: E731
    style = desc["style"]
    if style == 0:
        pta = PTA([a, b, c])
    elif style == 1:
        pta = PTA([a]) + b + c
    elif style == 2:
        pta = PTA([a, b]) + PTA([c])
    elif style == 3:
        pta = PTA(a) + PTA((b, c))
    elif style == 4:
        pta = (a + b) + c
    else:
        pta = PTA([a]) + (PTA([b]) + PTA(c))

    outs = check(pta, model, seed, "pulsars %s style %d" % (desc["perm"], style))
    free, _ = model.names()
    pars = models.values(free, 0, seed)
    order = [ps[i] for i in desc["perm"]]
    names = [p.name for p in order]
    mods = [a, b, c]
    ok = (
        len(pta) == 3
        and list(pta.keys()) == names
        and list(pta.pulsars) == names
        and all(x is y for x, y in zip(pta.pulsarmodels, mods))
        and all(x is y for x, y in zip(pta.values(), mods))
        and [k for k, _ in pta.items()] == names
        and all(v is y for (_, v), y in zip(pta.items(), mods))
        and all(pta[i] is mods[i] and pta[names[i]] is mods[i] for i in range(3))
        and all(name in repr(pta) for name in names)
    )
    if not ok:
        raise engine.Violation("container of pulsars %s (style %d) is inconsistent" % (names, style))
    try:
        pta["nobody"]
    except KeyError:
        pass
    else:
        raise engine.Violation("looking up an unknown pulsar does not raise KeyError")
    # signals, by name
    for p, mod in zip(order, mods):
        for sig in mod.signals:
            if pta.get_signal(sig.name) is not sig or pta.signals[sig.name] is not sig or mod[sig.signal_id] is not sig:
                raise engine.Violation("signal %s of %s is not found under its name" % (sig.name, p.name))
    # per-pulsar results
    accs = {acc.psr.name: acc for acc in model.accs(pars)}
    lists = {
        "residuals": pta.get_residuals(), "TNr": pta.get_TNr(pars), "TNT": pta.get_TNT(pars), "delay": pta.get_delay(pars),
        "ndiag": pta.get_ndiag(pars), "basis": pta.get_basis(pars), "rNr": pta.get_rNr_logdet(pars),
    }
    for i, p in enumerate(order):
        acc = accs[p.name]
        n = len(p.toas)
        C = np.diag(acc.N)
        Tm = np.asarray(lists["basis"][i])
        bad = []
        if not np.array_equal(lists["residuals"][i], p.residuals):
            bad.append("residuals")
        if Tm.shape[0] != n or not models.close(lists["TNr"][i], Tm.T @ (p.residuals / acc.N), 1e-8, 1e-9 * np.max(np.abs(lists["TNr"][i]))):
            bad.append("TNr")
        if not models.close(lists["TNT"][i], Tm.T @ (Tm / acc.N[:, None]), 1e-8, 1e-9 * np.max(np.abs(lists["TNT"][i]))):
            bad.append("TNT")
        if not models.close(np.asarray(lists["ndiag"][i]), acc.N, 1e-12):
            bad.append("ndiag")
        if not models.close(np.sum(lists["rNr"][i]), np.sum(p.residuals**2 / acc.N) + np.sum(np.log(acc.N)), 1e-10):
            bad.append("rNr")
        if bad:
            raise engine.Violation("%s of pulsar %s not at its position (order %s)" % (bad, p.name, names))
    if len(a + b) != 2 or len(PTA([a, b])) != 2:
        raise engine.Violation("adding two pulsar models does not give a PTA of two")
    return {"states": 1, "transitions": 12, "evaluations": 12, "traces": 1,
            "outcomes": [engine.outcome_hash(o) for o in outs], "sample": {"lnlikelihood": outs[0], "pulsars": names}}
