"""C08: observing epochs are the greedy clusters of TOAs closer than the time step."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["times on a lattice of half steps, where the arithmetic is exact; time step > 0"]
BOUNDS = {
    "quick": "all gap sequences over {0, 1/2, 1, 3/2} steps: n<=5 TOAs in all n! orders, n=6 in 12 orders, n=7 in 3 orders; n=10, 13, 41 with all repeated words of up to 4 gaps in 4 orders, n=1300 with words of up to 2 and three longer ones; "
    "steps {1, 2.5, 86400} s, origins {0, 4.6e9 s}, minimum counts {1, 2, 3}; index lists as arrays and slices; "
    "ECORR signals of pulsars with these TOAs for n<=5",
    "thorough": "n=6 in all 720 orders, n=7 in 40 orders, n=8 in 3 orders, repeated words up to n=257; ECORR signals for n<=6",
}
GAPS = [0.0, 0.5, 1.0, 1.5]


def orders(n, k):
    """The first k orders of a fixed list: sorted, reversed, interleaved, rotations, then all."""
    base = [list(range(n)), list(range(n))[::-1], list(range(1, n, 2)) + list(range(0, n, 2))]
    base += [list(range(i, n)) + list(range(i)) for i in range(1, n)]
    base += [list(p) for p in itertools.islice(itertools.permutations(range(n)), 5, 5 + 7 * k, 7)]
    out = []
    for b in base:
        if b not in out:
            out.append(b)
    return out[:k]


def cases(tier, seed):
    ret = []
    plan = {1: None, 2: None, 3: None, 4: None, 5: None, 6: 12, 7: 3}
    if tier == "thorough":
        plan.update({6: None, 7: 40, 8: 3})
    for n, k in plan.items():
        gs = list(itertools.product(range(4), repeat=n - 1))
        for i in range(0, len(gs), 64):
            ret.append({"part": "matrix", "n": n, "gaps": gs[i : i + 64], "orders": k})
    # many TOAs: every word of up to 4 gaps, repeated
    words = [w for k in range(1, 5) for w in itertools.product(range(4), repeat=k)]
    for n in (10, 13, 41) if tier == "quick" else (8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 33, 41, 100, 257):
        for i in range(0, len(words), 85):
            ret.append({"part": "matrix", "n": n, "gaps": [[w[j % len(w)] for j in range(n - 1)] for w in words[i : i + 85]], "orders": 4})
    few = [w for k in (1, 2) for w in itertools.product(range(4), repeat=k)] + [(0, 0, 3), (0,) * 40 + (3,), (1, 2, 3, 3, 3, 0)]
    for i in range(0, len(few), 4):
        ret.append({"part": "matrix", "n": 1300, "gaps": [[w[j % len(w)] for j in range(1299)] for w in few[i : i + 4]], "orders": 3})
    for n in range(2, 6 if tier == "quick" else 7):
        gs = list(itertools.product(range(4), repeat=n - 1))
        for i in range(0, len(gs), 32):
            ret.append({"part": "signal", "n": n, "gaps": gs[i : i + 32]})
    return ret


def cluster(times, dt):
    """Greedy clustering, on the list of (time, index) pairs."""
    left = sorted((t, i) for i, t in enumerate(times))
    ret = []
    while left:
        t0 = left[0][0]
        ret.append([i for t, i in left if t - t0 < dt])
        left = [(t, i) for t, i in left if not t - t0 < dt]
    return ret


def check(toas, dt, nmin, explicit=True):
    from enterprise.signals import utils

    before = toas.copy()
    if explicit:
        U, w = utils.create_quantization_matrix(toas, dt=dt, nmin=nmin)
    else:  # defaults
        U, w = utils.create_quantization_matrix(toas)
    want = sorted(sorted(c) for c in cluster(toas.tolist(), dt) if len(c) >= nmin)
    where = "TOAs %s, step %s, minimum %s" % (toas.tolist(), dt, nmin)
    if not np.array_equal(before, toas):
        raise engine.Violation("%s: the TOAs were modified" % where)
    if U.shape != (len(toas), len(want)):
        raise engine.Violation("%s: shape %s, expected %d epochs %s" % (where, U.shape, len(want), want))
    if U.size and not np.all((U == 0) | (U == 1)):
        raise engine.Violation("%s: entries other than 0 and 1" % where)
    got = [np.flatnonzero(c).tolist() for c in U.T]
    if sorted(got) != want:
        raise engine.Violation("%s: epochs %s, expected %s" % (where, got, want))
    if np.shape(w) != (len(want),) or not np.all(np.asarray(w) == 1):
        raise engine.Violation("%s: weights %s" % (where, w))
    for as_slice in (False, True):
        inds = utils.quant2ind(U, as_slice=as_slice) if as_slice else utils.quant2ind(U)
        if len(inds) != len(got):
            raise engine.Violation("%s: %d index lists for %d epochs" % (where, len(inds), len(got)))
        full = np.arange(len(toas))
        for ind, g in zip(inds, got):
            if as_slice and g == list(range(g[0], g[-1] + 1)) and not isinstance(ind, slice):
                raise engine.Violation("%s: no slice for the consecutive indices %s" % (where, ind))
            if not as_slice and isinstance(ind, slice):
                raise engine.Violation("%s: slice %s although none was asked for" % (where, ind))
            a = full[ind].tolist()
            b = np.asarray(utils.indices_from_slice(ind)).tolist()
            if a != g or b != g:
                raise engine.Violation("%s: index list %s (as_slice=%s) selects %s / %s, expected %s" % (where, ind, as_slice, a, b, g))
    return got


def signal(desc, seed):
    """The ECORR basis and covariance of a pulsar use exactly these epochs."""
    n, evals, outs = desc["n"], 0, set()
    for ig, g in enumerate(desc["gaps"]):
        # (no exact boundaries here: converting days to seconds rounds)
        t = np.concatenate([[0.0], np.cumsum([[0.0, 0.45, 1.25, 1.6][k] for k in g])])
        order = orders(n, 4)[ig % min(4, len(orders(n, 4)))]
        raw = psrs.seeded_raw(psrs.spec(layout="|".join("A" * n), tm=["off"]), seed)
        t0 = 53000.0
        raw["toas"] = (t0 * 86400.0 + t[order]) / 86400.0
        raw["stoas"] = raw["toas"].copy()
        psr = psrs.from_raw(raw, sort=bool(ig % 2))
        eps = [sorted(c) for c in cluster(psr.toas.tolist(), 1.0) if len(c) > 1]
        m = models.Model([["mn", {}], ["becorr", {}]], [psr])
        pta = m.pta()
        T = pta.get_basis({})[0]
        got = [] if T is None else sorted(np.flatnonzero(c).tolist() for c in np.asarray(T).T)
        if got != sorted(eps):
            raise engine.Violation("ECORR basis of TOAs %s: epochs %s, expected %s" % (psr.toas.tolist(), got, eps))
        evals += 1
        outs.add(str(eps))
    return {"states": len(desc["gaps"]), "transitions": evals, "evaluations": evals, "traces": evals,
            "outcomes": sorted(outs), "sample": desc["gaps"][0]}


def run_case(desc, seed):
    if desc["part"] == "signal":
        return signal(desc, seed)
    n, evals, outs, states = desc["n"], 0, set(), 0
    perms = [list(p) for p in itertools.permutations(range(n))] if desc["orders"] is None else orders(n, desc["orders"])
    for g in desc["gaps"]:
        t = np.concatenate([[0.0], np.cumsum([GAPS[k] for k in g])])
        for ip, p in enumerate(perms):
            states += 1
            nmin = 1 + ip % 3
            origin, dt = [(0.0, 1.0), (4.6e9, 2.5), (0.0, 86400.0), (4.6e9, 1.0)][(ip // 3) % 4]
            got = check(origin + dt * t[p], dt, nmin)
            outs.add(str(got))
            evals += 1
            if ip < 6:
                for nm in (1, 2, 3):
                    for org, step in ((0.0, 1.0), (4.6e9, 2.5), (4.6e9, 86400.0)):
                        check(org + step * t[p], step, nm)
                        evals += 1
                check(4.6e9 + t[p], 1.0, 2, explicit=False)
                evals += 1
    return {"states": states, "transitions": evals, "evaluations": evals, "traces": states, "outcomes": sorted(outs)[:200],
            "sample": {"gaps": desc["gaps"][0]}}
