"""C04: white-noise covariance and its solver match dense algebra for every epoch/backend pattern."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["TOAs of one epoch 0.2 s apart (epoch threshold 1 s), epochs weeks apart; two parameter points, one of them with variances of order one"]
BOUNDS = {
    "quick": "all compositions of 2-6 TOAs into epochs x all assignments of 2 backends (3 for <=4 TOAs), all set partitions "
    "of <=5 unsorted TOAs x 2 backends; one set of ~100 TOAs in 40 epochs for 1, 2, 3 and 12 backends, one of ~1100 in 450, one of ~1100 in 450; ECORR with and without backend selection x 4 methods + basis; 7 solve shapes",
    "thorough": "same with <=7 TOAs (sorted) and <=6 TOAs (unsorted)",
}
METHODS = ["sherman-morrison", "fast-sherman-morrison", "block", "sparse"]


def compositions(n):
    for cuts in itertools.product([0, 1], repeat=n - 1):
        yield [0] + list(np.cumsum(cuts))


def partitions(n):
    def rec(prefix, m):
        if len(prefix) == n:
            yield list(prefix)
            return
        for k in range(m + 1):
            yield from rec(prefix + [k], max(m, k + 1))

    yield from rec([], 0)


def cases(tier, seed):
    nmax, umax = (6, 5) if tier == "quick" else (7, 6)
    ret = []
    for n in range(2, nmax + 1):
        for comp in compositions(n):
            ret.append({"epochs": [int(c) for c in comp], "letters": "ABC" if n <= 4 else "AB", "sorted": True})
    for n in range(2, umax + 1):
        for part in partitions(n):
            if sorted(part) != part:
                ret.append({"epochs": part, "letters": "AB", "sorted": False})
    for srt, of in itertools.product((True, False), range(4)):  # many TOAs, epochs and backends
        ret.append({"long": of, "sorted": srt})
        if of % 2:
            ret.append({"long": of, "sorted": srt, "nepochs": 450})
    return ret


def make(desc, letters, seed):
    """Pulsar whose TOA number i belongs to epoch desc['epochs'][i] and backend letters[i]."""
    ep = desc["epochs"]
    order = sorted(range(len(ep)), key=lambda i: (ep[i], i))  # time order
    layout = "|".join("".join(letters[i] for i in order if ep[i] == e) for e in sorted(set(ep)))
    inv = [order.index(i) for i in range(len(ep))]
    sp = psrs.spec(layout=layout, seed=1, tm=["off"])
    if not desc["sorted"]:
        sp.update(order=inv, sort=False)
    return psrs.make_psr(sp, seed)


def variants(desc):
    out = []
    for sel in (None, "backend"):
        for m in METHODS:
            out.append([["mn", {"sel": "backend", "eq": 1}], ["ecorr", {"sel": sel, "method": m}], ["tneq", {}]])
    out.append([["mn", {}], ["tneq", {"sel": "backend"}]])
    return out


def run_case(desc, seed):
    if "long" in desc:
        sys_ = ["A", "AB", "ABC", "abcdefghijkl"][desc["long"]]
        ep = psrs.long_layout(sys_, desc.get("nepochs", 40)).split("|")
        letters = [c for e in ep for c in e]
        ids = [i for i, e in enumerate(ep) for _ in e]
        if not desc["sorted"]:
            k = np.random.RandomState(3).permutation(len(ids))
            letters, ids = [letters[i] for i in k], [ids[i] for i in k]
        desc = dict(desc, epochs=ids, patterns=["".join(letters)])
    n = len(desc["epochs"])
    rng = np.random.RandomState(seed + n)
    states, evals, outs = 0, 0, set()
    for letters in desc["patterns"] if "patterns" in desc else itertools.product(desc["letters"], repeat=n):
        psr = make(desc, letters, seed)
        x, y = rng.randn(n), rng.randn(n)
        X, Y, one = rng.randn(n, 3), rng.randn(n, 2), rng.randn(n, 1)
        for comps in variants(desc):
            method = [o.get("method") for k, o in comps if k == "ecorr"]
            method = method[0] if method else "diag"
            model = models.Model(comps, [psr])
            sc = model.metamodel(0)(psr)
            free, _ = model.names()
            got = sorted(p.name for p in sc.params)
            if got != sorted(free):
                raise engine.Violation("%s %s: parameters %s, expected %s" % (letters, method, got, sorted(free)))
            for variant in (0, 1):
                pars = models.values(free, variant, seed)
                if variant:  # numbers of order one
                    pars = {k: v * 1e6 if k.endswith("efac") else v + 6.0 for k, v in pars.items()}
                acc = model.accs(pars)[0]
                C = np.diag(acc.N) + acc.K
                Ci = np.linalg.inv(C / np.mean(acc.N)) / np.mean(acc.N)
                ld = np.linalg.slogdet(C / np.mean(acc.N))[1] + n * np.log(np.mean(acc.N))
                nd = sc.get_ndiag(pars)
                if method in ("block", "sparse", "diag"):
                    probes = [(X, None), (x, None), (one, None)]
                else:
                    probes = [(x, None)]
                probes += [(x, x), (x, y), (x, X), (X, X), (X, Y), (x, one), (one, X)]
                for right, left in probes:
                    want = Ci @ right
                    if left is not None:
                        want = left.T @ want
                    res, gld = nd.solve(right, left_array=left, logdet=True)
                    res2 = nd.solve(right, left_array=left)
                    evals += 1
                    tol = 1e-9 * (np.max(np.abs(want)) + 1 / np.mean(acc.N))
                    for r in (res, res2):
                        if np.shape(r) != np.shape(want) or not np.all(np.abs(r - want) <= tol):
                            raise engine.Violation(
                                "backends %s, %s: solve(%s, left %s) = %r, dense %r"
                                % ("".join(letters), method, np.shape(right), np.shape(left) if left is not None else None, r, want)
                            )
                    if abs(gld - ld) > 1e-9 * (abs(ld) + 1):
                        raise engine.Violation("backends %s, %s: log determinant %r, dense %r" % ("".join(letters), method, gld, ld))
                outs.add(engine.outcome_hash(ld))
            states += 1
        # the same model with a basis representation of ECORR has the same likelihood
        for sel in (None, "backend"):
            model = models.Model([["mn", {"sel": "backend", "eq": 1}], ["becorr", {"sel": sel}], ["tneq", {}]], [psr])
            pta = model.pta()
            free, _ = model.names()
            pars = models.values(free, 0, seed)
            want = models.lnlike(model.accs(pars))
            got = pta.get_lnlikelihood(pars)
            evals += 1
            if abs(want - got) > 1e-8 * (abs(want) + 10):
                raise engine.Violation("backends %s, basis ECORR: log likelihood %r, dense %r" % ("".join(letters), got, want))
    return {"states": states, "transitions": evals, "evaluations": evals, "traces": states, "outcomes": sorted(outs),
            "sample": {"patterns": states}}
