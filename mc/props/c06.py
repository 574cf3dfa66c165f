"""C06: sharing basis columns between processes never changes the model."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["one or two pulsars with 14 TOAs; processes from a list of 19 kinds"]
BOUNDS = {
    "quick": "all ordered pairs and all triples of 19 process kinds, all combine flags (2^k), timing model first for half of them; "
    "pairs with a common process on two pulsars",
    "thorough": "same with all ordered triples and all 4-subsets",
}

T = 1400.0 * 86400.0
LAY = ["ABA|A|BA|B|AA|AB|B|A|BB", "B|AAB|A|BA|ABAB|A|AB|BA"]

KINDS = {
    "r2": ["red", {"T": T, "n": 2}],
    "r3": ["red", {"T": T, "n": 3}],
    "rhalf": ["red", {"T": T / 2, "n": 1}],
    "near": ["red", {"T": T * (1 + 3e-10), "n": 2}],
    "other": ["red", {"T": 0.77 * T, "n": 2}],
    "dup": ["red", {"T": T, "n": 2, "spec": "free", "modes": [1 / T, 1 / T]}],
    "perm": ["red", {"T": T, "n": 2, "spec": "free", "modes": [2 / T, 1 / T]}],
    "free": ["red", {"T": T, "n": 2, "spec": "free"}],
    "back": ["red", {"T": T, "n": 2, "sel": "backend"}],
    "half": ["red", {"T": T, "n": 2, "sel": "half"}],
    "dm": ["red", {"T": T, "n": 2, "basis": "dm"}],
    "vidx": ["red", {"T": T, "n": 2, "basis": "chrom", "vidx": 1}],
    "cidx": ["red", {"T": T, "n": 2, "basis": "chrom", "vidx": 1, "pars": {"idx": "c"}}],
    "dense": ["red", {"T": T, "n": 3, "spec": "dense"}],
    "se": ["se", {"dt": 450.0}],
    "ecb": ["becorr", {"sel": "backend"}],
    # bases of ones and zeros, with and without epochs in common
    "eca": ["becorr", {}],
    "ecx": ["becorr", {"sel": "idx:x:0,1,2,3,4,5,7,8"}],
    "ecy": ["becorr", {"sel": "idx:y:0,1,2,9,10,12,13,14"}],
}
SMALL = [k for k in KINDS if k not in ("perm", "free", "half", "near", "eca", "ecx")]


def cases(tier, seed):
    ret = []
    kinds = list(KINDS)
    for k in kinds:
        ret.append({"procs": [k], "tm": 0})
        ret.append({"procs": [k, k], "tm": 1})
    for a, b in itertools.permutations(kinds, 2):
        ret.append({"procs": [a, b], "tm": len(ret) % 2})
    triples = itertools.permutations(kinds, 3) if tier == "thorough" else itertools.combinations(kinds, 3)
    for t in triples:
        t = list(t)
        if tier == "quick" and len(ret) % 2:
            t = t[::-1]
        ret.append({"procs": t, "tm": len(ret) % 2})
    if tier == "thorough":
        for t in itertools.combinations(kinds, 4):
            ret.append({"procs": list(t), "tm": len(ret) % 2})
    for a, b in itertools.permutations(SMALL, 2):
        ret.append({"procs": [a, b], "tm": 0, "gw": len(ret) % 3})
    return [{"configs": ret[i : i + 8]} for i in range(0, len(ret), 8)]


_PSR = {}


def pulsars(seed):
    if seed not in _PSR:
        _PSR[seed] = [
            psrs.make_psr(psrs.spec(name="J%04d+0001" % (i + 1), layout=LAY[i], pos=i, seed=i + 1, tm=["off", "F0"]), seed)
            for i in range(2)
        ]
    return _PSR[seed]


def run_config(cfg, seed):
    gw = "gw" in cfg
    ps = pulsars(seed)[: 2 if gw else 1]
    outs, n = [], 0
    base = [["mn", {"sel": "backend"}]] + ([["tm", {}]] if cfg["tm"] else [])
    nproc = len(cfg["procs"])
    for flags in itertools.product([True, False], repeat=nproc + (1 if gw else 0)):
        comps = [c for c in base]
        for i, (k, f) in enumerate(zip(cfg["procs"], flags)):
            kind, o = KINDS[k]
            o = dict(o, name="%s%d" % (k, i))
            if kind != "becorr":
                o["combine"] = f
            comps.append([kind, o])
        if gw:
            comps.insert([1, 2, len(comps)][cfg["gw"]], ["gw", {"T": T, "n": 2, "combine": flags[-1]}])
        model = models.Model(comps, ps)
        pta = model.pta()
        free, _ = model.names()
        for variant in (0, 1):
            pars = models.values(free, variant, seed)
            accs = model.accs(pars)
            want = models.lnlike(accs)
            got = pta.get_lnlikelihood(pars)
            n += 1
            if abs(want - got) > 1e-6 * (abs(want) + 10):
                raise engine.Violation("processes %s combine %s: log likelihood %r, dense %r" % (cfg["procs"], flags, got, want))
            if not gw:
                Tm = np.asarray(pta.get_basis(pars)[0])
                phi = pta.pulsarmodels[0].get_phi(pars)
                phi = np.diag(phi) if np.ndim(phi) == 1 else np.asarray(phi)
                mine = np.diag(phi) < 1e30
                cov = Tm[:, mine] @ phi[np.ix_(mine, mine)] @ Tm[:, mine].T
                a = accs[0]
                ref = sum((F * p) @ F.T if p.ndim == 1 else F @ p @ F.T for _, F, p in a.gps)
                if np.max(np.abs(cov - ref)) > 1e-9 * np.max(np.abs(ref)):
                    raise engine.Violation("processes %s combine %s: T Phi T^T differs from the sum of the processes"
                                           % (cfg["procs"], flags))
                if not any(f for f, k in zip(flags, cfg["procs"])) and not any(KINDS[k][0] == "becorr" for k in cfg["procs"]):
                    stack = np.hstack(([a.M[0]] if a.M else []) + [F for _, F, _ in a.gps])
                    if Tm.shape != stack.shape or np.max(np.abs(Tm - stack)) > 1e-9 * np.max(np.abs(stack)):
                        raise engine.Violation("processes %s without combining: the basis is not the list of all columns in order"
                                               % cfg["procs"])
                if all(flags):
                    # identical fixed columns (bit by bit) are held once
                    mats = [(sig.signal_id, sig.get_basis(pars)) for sig in pta.pulsarmodels[0].signals]
                    mats = [(k, [c.tobytes() for c in np.asarray(B, dtype="d").T]) for k, B in mats if B is not None]
                    if all(len(set(c)) == len(c) for _, c in mats):
                        count = len({(k, c) if "vidx" in k or "cidx" in k else c for k, cs in mats for c in cs})
                        if Tm.shape[1] != count:
                            raise engine.Violation("processes %s: the basis has %d columns, %d of them different"
                                                   % (cfg["procs"], Tm.shape[1], count))
            outs.append(engine.outcome_hash(want))
    return outs, n


def run_case(desc, seed):
    outs, n, s = set(), 0, 0
    for cfg in desc["configs"]:
        o, k = run_config(cfg, seed)
        outs.update(o)
        n += k
        s += k // 2
    return {"states": s, "transitions": n, "evaluations": n, "traces": s, "outcomes": sorted(outs), "sample": desc["configs"][0]}
