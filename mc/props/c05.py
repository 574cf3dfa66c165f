"""C05: assembly and inversion of the prior covariance for all combinations of processes."""

import itertools

import numpy as np
import scipy.linalg as sl

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["pulsars with more TOAs than basis columns, so that the covariance T Phi T^T determines Phi"]
BOUNDS = {
    "quick": "up to 2 common processes out of 10 kinds, each on every subset of 3 pulsars with >=1 member (pairs of subsets), and all "
    "triples of kinds on all pulsars, x 12 per-pulsar processes, x 2 signal orders; one or two of them on arrays of 4, 6 and 9 pulsars; 3 or 4 of them on pairs of pulsars in chains and cycles; 3 inversion methods; "
    "all sequences of 2 block operations (add or set, 12 blocks) on KernelMatrices of 3 kinds",
    "thorough": "same with all subset combinations, timing model on/off for each, and all triples on all pairs of subsets; sequences of 3 operations",
}

T = 1400.0 * 86400.0
LAY = ["ABA|A|BA|B|AA|AB|B|A|BB", "B|AAB|A|BA|ABAB|A|AB|BA", "ABAB|B|A|B|AA|AB|ABAB|A"]

COMMON = {
    "hd": {"T": T, "n": 2, "orf": "hd"},
    "mono": {"T": T, "n": 2, "orf": "mono"},
    "dip3": {"T": T, "n": 3, "orf": "dip"},
    "off": {"T": 0.77 * T, "n": 2, "orf": "hd"},
    "vidx": {"T": T, "n": 2, "orf": "hd", "basis": "chrom"},
    "dense": {"T": T, "n": 2, "orf": "hd", "spec": "dense"},
    "free": {"T": T, "n": 2, "orf": "par", "spec": "free"},
    "own": {"T": T, "n": 2, "orf": "hd", "combine": False},
    "sub": {"T": T / 2, "n": 1, "orf": "hd"},
}
MORE = {"dip": {"T": T, "n": 2, "orf": "dip"}, "one": {"T": T, "n": 1, "orf": "hd"}}
SUBSETS = [[0, 1, 2], [0, 1], [0, 2], [1, 2], [1]]
PRIVATE = {
    "": [],
    "red": [["red", {"T": T, "n": 2}]],
    "red3back": [["red", {"T": T, "n": 3}], ["red", {"T": T, "n": 2, "sel": "backend", "name": "rb"}]],
    "se": [["se", {"dt": 450.0}]],
    "dense": [["red", {"T": T, "n": 3, "spec": "dense"}], ["red", {"T": T, "n": 2, "name": "r2"}]],
    "part": [["red", {"T": T, "n": 2, "psrs": [0]}], ["red", {"T": T, "n": 2, "psrs": [2], "basis": "dm", "name": "dm"}]],
    "vidx": [["red", {"T": T, "n": 2, "basis": "chrom", "vidx": 1}], ["becorr", {"sel": "backend"}]],
    # dense priors that overlap in part, and one that connects two others
    "chain": [["red", {"T": T, "n": 2, "spec": "dense", "modes": [a / T, b / T], "name": "r%d%d" % (a, b)}] for a, b in ((1, 2), (3, 4), (2, 3))],
    "chain4": [["red", {"T": T, "n": 2, "spec": "dense", "modes": [a / T, b / T], "name": "r%d%d" % (a, b)}] for a, b in ((1, 2), (3, 4), (5, 6), (4, 5))],
    # only frequencies shared with a common process correlated with others that are not shared
    "band": [["red", {"T": T, "n": 3, "spec": "band"}]],
    "overlap": [["red", {"T": T, "n": 2, "spec": "dense", "modes": [a / T, b / T], "name": "r%d%d" % (a, b)}] for a, b in ((2, 3), (1, 2))],
}


def cases(tier, seed):
    ret = []
    kinds = list(COMMON)
    for k in kinds:
        for s in SUBSETS:
            for pr in PRIVATE:
                for tm in (0, 1):
                    ret.append({"common": [[k, s]], "private": pr, "tm": tm, "rev": 0})
    for pr in PRIVATE:
        for tm in (0, 1):
            ret.append({"common": [], "private": pr, "tm": tm, "rev": 0})
    n = 0
    for k1, k2 in itertools.combinations(kinds, 2):
        for s1 in SUBSETS:
            for s2 in SUBSETS:
                for pr in PRIVATE:
                    n += 1
                    for tm in (0, 1):
                        for rev in (0, 1):
                            if tier == "thorough" or (n + 2 * tm + rev) % 4 == 0:
                                ret.append({"common": [[k1, s1], [k2, s2]], "private": pr, "tm": tm, "rev": rev})
    for ks in itertools.combinations(kinds, 3):
        for pr in PRIVATE:
            subs = [[s, s, s] for s in SUBSETS[:1]]
            if tier == "thorough":
                subs = [list(x) for x in itertools.product(SUBSETS[:4], repeat=3)]
            for ss in subs:
                ret.append({"common": [[k, s] for k, s in zip(ks, ss)], "private": pr, "tm": 0, "rev": 0})
    for s in SUBSETS:
        for pr in PRIVATE:
            for tm in (0, 1):
                ret.append({"common": [["one", s]], "private": pr, "tm": tm, "rev": tm})
            ret.append({"common": [["one", s], ["hd", SUBSETS[0]]], "private": pr, "tm": 0, "rev": 0})
    # arrays of 4 to 9 pulsars
    for n in (4, 6, 9):
        for i, k1 in enumerate(kinds):
            for j, s in enumerate((list(range(n)), list(range(0, n, 2)), list(range(1, n))[::-1])):
                prs = list(PRIVATE) if tier == "thorough" else [list(PRIVATE)[(i + j + n) % len(PRIVATE)]]
                for pr in prs:
                    ret.append({"n": n, "common": [[k1, sorted(s)]], "private": pr, "tm": (i + j) % 2, "rev": 0})
                    k2 = kinds[(i + 1) % len(kinds)]
                    ret.append({"n": n, "common": [[k1, sorted(s)], [k2, list(range(n - 1))]], "private": pr, "tm": 0, "rev": 1})
    # processes on pairs of pulsars that form chains and cycles, in every order
    for j, es in enumerate(itertools.permutations([[0, 1], [1, 2], [2, 3], [0, 3]], 3)):
        for pr in ("", "chain", "red"):
            ret.append({"n": 4, "common": [[k, e] for k, e in zip(("hd", "mono", "free"), es)], "private": pr, "tm": j % 2, "rev": 0})
    for j, es in enumerate(itertools.permutations([[0, 1], [1, 2], [2, 3], [3, 4], [4, 5]], 4)):
        if tier == "thorough" or j % 3 == 0:
            ret.append({"n": 6, "common": [[k, e] for k, e in zip(("hd", "mono", "free", "dip"), es)], "private": "", "tm": 0, "rev": j % 2})
    # keep the number of cases manageable for the engine: one case per 12 configurations
    kern = [{"first": i, "depth": 2 if tier == "quick" else 3} for i in range(12)]
    return kern + [{"configs": ret[i : i + 12]} for i in range(0, len(ret), 12)]


_PSR = {}


SKY = [0, 1, 2, [5.5, -1.1], [2.9, 0.1], [0.9, -0.2], [3.6, -0.7], [4.9, 0.4], [2.2, 1.2]]


def pulsars(seed, n=3):
    if (seed, n) not in _PSR:
        _PSR[seed, n] = [
            psrs.make_psr(psrs.spec(name="J%04d+0001" % (i + 1), layout=LAY[i % 3], pos=SKY[i], seed=i + 1, tm=["off", "F0"]), seed)
            for i in range(n)
        ]
    return _PSR[seed, n]


def as_matrix(phi):
    """Phi of the whole array as one dense matrix, and the slices of the pulsars."""
    if isinstance(phi, list):
        blocks = [np.zeros((0, 0)) if p is None else (np.diag(p) if np.ndim(p) == 1 else np.asarray(p)) for p in phi]
        return sl.block_diag(*[b for b in blocks if b.size] or [np.zeros((0, 0))])
    return np.asarray(phi.toarray() if hasattr(phi, "toarray") else phi)


def run_config(cfg, seed):
    ps = pulsars(seed, cfg.get("n", 3))
    comps = [["mn", {}]]
    if cfg["tm"]:
        comps.append(["tm", {}])
    comps += [[k, dict(o)] for k, o in PRIVATE[cfg["private"]]]
    comps += [["gw", dict(COMMON.get(k) or MORE[k], name="c_" + k, psrs=s)] for k, s in cfg["common"]]
    order = list(range(len(comps)))
    model = models.Model(comps, ps)
    if cfg["rev"]:
        order = order[::-1]
    pta = model.pta(order=order)
    free, _ = model.names()
    outs, nev = [], 0
    dense_cross = any((COMMON.get(k) or MORE[k]).get("spec") == "dense" and len(s) > 1 for k, s in cfg["common"])
    for variant in (0, 1):
        pars = models.values(free, variant, seed)
        phi = pta.get_phi(pars)
        basis = pta.get_basis(pars)
        accs = model.accs(pars)
        for a in accs:
            a.N[:] = 0
        want, off = models.joint_cov(accs)
        P = as_matrix(phi)
        if not np.all(np.isfinite(P)) or not np.all(np.abs(P - P.T) <= 1e-12 * np.abs(P)):
            raise engine.Violation("Phi is not finite and symmetric: %s" % cfg)
        ncol = [0 if F is None else F.shape[1] for F in basis]
        if P.shape[0] != sum(ncol):
            raise engine.Violation("Phi has %d rows for %d basis columns" % (P.shape[0], sum(ncol)))
        F = np.zeros((off[-1], sum(ncol)))
        c = 0
        tmcols = []
        for i, B in enumerate(basis):
            if B is not None:
                F[off[i] : off[i + 1], c : c + ncol[i]] = B
                d = np.diag(P)[c : c + ncol[i]]
                mine = [c + k for k in range(ncol[i]) if d[k] > 1e30]
                tmcols += mine
                M = [] if not accs[i].M else accs[i].M[0].T
                if len(mine) != len(M):
                    raise engine.Violation("pulsar %d has %d improper columns, expected %d" % (i, len(mine), len(M)))
                for k in mine:
                    if not any(np.allclose(B[:, k - c], m, rtol=1e-10, atol=1e-14) for m in M) or P[k, k] != 1e40:
                        raise engine.Violation("improper prior on a column that is not a timing-model column")
                    if np.any(np.delete(P[k], k)):
                        raise engine.Violation("timing-model coefficient correlated with another one")
            c += ncol[i]
        rest = [k for k in range(P.shape[0]) if k not in tmcols]
        got = F[:, rest] @ P[np.ix_(rest, rest)] @ F[:, rest].T
        tol = 1e-9 * np.max(np.abs(want)) if want.size else 0
        if not np.all(np.abs(got - want) <= tol):
            i, j = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
            raise engine.Violation(
                "implied covariance wrong at TOAs (%d, %d): %r instead of %r; %s" % (i, j, got[i, j], want[i, j], cfg)
            )
        nev += 1
        # inverses
        s = np.sqrt(np.diag(P))
        for method in ("cliques", "partition", "sparse"):
            if method == "partition" and dense_cross:
                continue
            for logdet in (True, False):
                inv = pta.get_phiinv(pars, logdet=logdet, method=method)
                nev += 1
                if isinstance(phi, list):
                    pairs = [(x if logdet else (x, None)) if x is not None else None for x in inv]
                    if [x is None for x in pairs] != [p is None for p in phi]:
                        raise engine.Violation("method %s: pulsars without basis do not match" % method)
                    I = as_matrix([None if x is None else x[0] for x in pairs])
                    ld = sum(x[1] for x in pairs if x is not None) if logdet else None
                else:
                    I, ld = inv if logdet else (inv, None)
                    I = as_matrix(I)
                if I.shape != P.shape:
                    raise engine.Violation("method %s: inverse has shape %s, Phi %s" % (method, I.shape, P.shape))
                R = (P / s[:, None] / s[None, :]) @ (I * s[:, None] * s[None, :])
                if P.size and not np.max(np.abs(R - np.eye(len(s)))) < 1e-5:
                    raise engine.Violation("method %s: Phi times its inverse deviates from 1 by %.3g; %s"
                                           % (method, np.max(np.abs(R - np.eye(len(s)))), cfg))
                if logdet and P.size:
                    wld = np.linalg.slogdet(P / s[:, None] / s[None, :])[1] + 2 * np.sum(np.log(s))
                    if abs(ld - wld) > 1e-8 * (1 + abs(wld)):
                        raise engine.Violation("method %s: log determinant %r, expected %r; %s" % (method, ld, wld, cfg))
        outs.append(engine.outcome_hash([float(np.sum(want)), P.shape[0]]))
    return outs, nev


def run_kernel(desc, seed):
    """All sequences of block operations on a KernelMatrix, against a plain matrix."""
    from enterprise.signals import utils

    size, n, outs = 5, 0, set()
    rng = np.random.default_rng(seed)
    idxs = [slice(0, 2), slice(1, 4), np.array([0, 2]), np.array([3, 1]), slice(4, 5), slice(0, 5)]
    ops = []
    for i, idx in enumerate(idxs):
        k = len(np.arange(size)[idx])
        off = rng.uniform(-0.3, 0.3, (k, k))
        ops.append((idx, rng.uniform(5, 9, k)))
        ops.append((idx, np.diag(rng.uniform(5, 9, k)) + 0.5 * (off + off.T)))
    # after the first `set` blocks stay diagonally dominant: all matrices can be inverted
    seq = [()]
    for d in range(desc["depth"]):
        seq = [s + ((o, kind),) for s in seq for o in range(len(ops)) for kind in ("add", "set")]
    seq = [s for s in seq if s[0][0] == desc["first"]]
    base = np.diag(rng.uniform(5, 9, size))
    for s in seq:
        for start in ("int", "vector", "matrix"):
            if start == "int":
                K, ref = utils.KernelMatrix(size).add(np.diag(base).copy(), slice(0, size)), base.copy()
            elif start == "vector":
                K, ref = utils.KernelMatrix(np.diag(base).copy()), base.copy()
            else:
                ref = base + 0.1
                K = utils.KernelMatrix(ref.copy())
            for o, kind in s:
                idx, block = ops[o]
                given = block.copy()
                K = getattr(K, kind)(block, idx)
                rows = np.arange(size)[idx]
                if not np.array_equal(block, given):
                    raise engine.Violation("KernelMatrix.%s changes the block it is given" % kind)
                for a, r in enumerate(rows):
                    if block.ndim == 1:
                        ref[r, r] = block[a] + (ref[r, r] if kind == "add" else 0)
                        continue
                    for b, c in enumerate(rows):
                        ref[r, c] = block[a, b] + (ref[r, c] if kind == "add" else 0)
            what = "KernelMatrix from %s after %s" % (start, [(k, o) for o, k in s])
            have = np.asarray(K)
            if not models.close(np.diag(have) if have.ndim == 1 else have, ref, 1e-12, 1e-12):
                raise engine.Violation("%s: %s, expected %s" % (what, have, ref))
            for logdet in (False, True):
                inv = K.inv(logdet=logdet)
                inv, ld = inv if logdet else (inv, None)
                inv = np.asarray(inv)
                if not models.close(np.diag(inv) if inv.ndim == 1 else inv, np.linalg.inv(ref), 1e-9, 1e-9):
                    raise engine.Violation("%s: wrong inverse" % what)
                if logdet and not abs(ld - np.linalg.slogdet(ref)[1]) < 1e-9:
                    raise engine.Violation("%s: log determinant %r" % (what, ld))
            if not np.array_equal(np.asarray(K), have):
                raise engine.Violation("%s: inverting changes the matrix" % what)
            n += 1
        outs.add(engine.outcome_hash(float(np.sum(ref))))
    return {"states": n, "transitions": n * desc["depth"], "evaluations": 2 * n, "traces": n, "outcomes": sorted(outs), "sample": what}


def run_case(desc, seed):
    if "depth" in desc:
        return run_kernel(desc, seed)
    outs, n = [], 0
    for cfg in desc["configs"]:
        o, k = run_config(cfg, seed)
        outs += o
        n += k
    return {"states": len(desc["configs"]), "transitions": n, "evaluations": n, "traces": len(desc["configs"]),
            "outcomes": sorted(set(outs)), "sample": desc["configs"][0]}
