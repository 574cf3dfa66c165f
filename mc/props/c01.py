"""C01: answers depend on current parameters and constants only, never on the call history."""

import itertools

import numpy as np

from mc import engine, models, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "single process, serial calls; caller does not write into returned arrays",
    "two constants settings and 4-8 parameter points per model; agreement with a fresh PTA to 1e-7 relative (1e-9 of the largest entry)",
]
BOUNDS = {
    "quick": "per model: all ordered pairs of (accessor x point) operations on one live PTA; all histories of <=3 likelihood/"
    "set-constant operations and of <=2 arbitrary accessor operations from a fresh PTA; 9 accessors at neighbours of a point (every kind of parameter changed by "
    "factors of 1 + 1e-4 ... 3e-8) in turn with the point; the likelihood at 150 points, again, and in reverse order; "
    "every parameter, element and constant changed alone, there and back (also models with 6 backends and 6 pulsars); a dictionary that names the constants",
    "thorough": "per model: all ordered pairs over all accessors and points, all ordered triples over a reduced alphabet; all "
    "histories of <=4 likelihood/set-constant operations and <=3 accessor operations from a fresh PTA",
}

T = 1400.0 * 86400.0
P1 = dict(name="J0001+0001", layout="AB|A|BA|B|AA", pos=0, seed=1)
P2 = dict(name="B0002-0002", layout="B|AAB|A|BA", pos=1, seed=2, tm=["off", "F0"])
P3 = dict(name="J0003+0003", layout="ABAB|B|A|B", pos=2, seed=3)
WB = dict(
    name="J0004+0004", layout="AB|BA|BB|A", pos=1, seed=4, wideband=1, t0=53000.0, span=900.0,
    tm=["off", "F0", "DMX_0001", "DMX_0002"], dmx={"DMX_0001": (52000.0, 53450.0), "DMX_0002": (53450.0, 56000.0)},
)

P6 = dict(name="J0006+0006", layout="AA|BB|CC|DD|aa|bb|AC|BD", pos=0, seed=6)
W6 = dict(WB, name="J0007+0007", layout="AC|BD|ab|DA|CB|a", tm=["off", "F0", "DMX_0001", "DMX_0002"])
SKY6 = [0, 1, 2, [5.5, -1.1], [2.9, 0.1], [0.9, -0.2]]
G = {"const": "c"}


def fams():
    back = {"sel": "backend"}
    red = {"T": T, "n": 2}
    F = {}
    F["white"] = ([["mn", dict(back, eq=1)], ["tneq", {"sel": "band"}], ["tm", {}], ["red", dict(red)]], [P1])
    for m in ("sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
        F["ecorr-" + m] = (
            [["mn", dict(back)], ["ecorr", dict(back, method=m, pars={"log10_ecorr": "u"})],
             ["tm", {}], ["red", dict(red, basis="chrom", vidx=1, pars={"gamma": "c"})], ["wave", {}]],
            [P1],
        )
    F["const-white"] = (
        [["mn", dict(back, eq=1, pars={"efac": "cs", "log10_t2equad": "c"})],
         ["ecorr", {"method": "sparse", "pars": {"log10_ecorr": "cs"}}], ["tm", {"marg": 1}], ["red", dict(red)]], [P1])
    F["becorr"] = ([["mn", {}], ["becorr", dict(back)], ["tm", {"marg": 1}], ["red", dict(red, coeff=1)],
                    ["red", dict(red, name="dm", basis="dm", spec="free")], ["red", dict(red, name="chrom", basis="chrom", vidx=1)]], [P1])
    F["share"] = ([["mn", {}], ["tm", {}], ["red", dict(red)], ["red", dict(red, name="red2", n=3, spec="free")],
                   ["red", dict(red, name="red3", n=3, sel="half", combine=True)]], [P1])
    F["hd"] = ([["mn", dict(back)], ["tm", {}], ["red", dict(red, pars={"gamma": "cs"})],
                ["gw", dict(red, orf="hd", pars={"gamma": "c"})]], [P1, P2])
    F["hd3"] = ([["mn", {}], ["tm", {"marg": 1}], ["red", dict(red, n=3, psrs=[0, 2])],
                 ["gw", dict(red, orf="par")], ["gw", dict(red, name="gw2", orf="mono", psrs=[0, 1])]], [P1, P2, P3])
    F["cidx"] = ([["mn", {}], ["tm", {}], ["red", dict(red, basis="chrom", vidx=1, name="c1", pars={"idx": "c"})],
                  ["red", dict(red, basis="chrom", vidx=1, name="c2", pars={"idx": "c"})]], [P1])
    F["cidxgw"] = ([["mn", {}], ["gw", dict(red, basis="chrom", pars={"idx": "c"})],
                    ["red", dict(red, basis="chrom", vidx=1, name="c2", pars={"idx": "c"})]], [P1, P2])
    F["orf0"] = ([["mn", {}], ["gw", dict(red, orf="par")], ["red", dict(red, name="gate", basis="gate", n=2)]], [P1, P2])
    F["hdwide"] = ([["mn", {}], ["tm", {}], ["gw", dict(red, n=3, orf="hd")], ["red", dict(red, n=3)]], [P1, P2])
    F["unc"] = ([["mn", dict(back)], ["tm", {}],
                 ["red", dict(red, name="gw", pars={"log10_A": "s:gw_log10_A", "gamma": "s:gw_gamma"})],
                 ["red", dict(red, name="red", pars={"log10_A": "s:all_log10_A"})]], [P1, P2])
    F["vidx"] = ([["mn", {}], ["tm", {}], ["red", dict(red, basis="chrom", vidx=1, name="chrom")],
                  ["gw", dict(red, basis="chrom", orf="hd")], ["wave", {"sel": "band"}]], [P1, P2])
    F["coeffs"] = ([["mn", {}], ["tm", {}], ["red", dict(red, basis="chrom", vidx=1, coeff=1, name="chrom")],
                    ["gw", dict(red, coeff=1, orf="hd")], ["red", dict(red, name="dm", basis="dm", sel="half", coeff=1)]],
                   [P1, P2])
    F["dense"] = ([["mn", {}], ["tm", {}], ["se", {"dt": 450.0}], ["red", dict(red, spec="dense", n=3)],
                   ["red", dict(red, name="r2")]], [P1])
    F["densegw"] = ([["mn", {}], ["tm", {}], ["gw", dict(red, spec="dense")], ["red", dict(red, pars={"gamma": "c"})],
                     ["se", {"dt": 450.0}]], [P1, P2])
    F["ephem"] = ([["mn", {}], ["tm", {}], ["red", dict(red)], ["phys", {}], ["wave", {}]], [P1, P2])
    F["ephemgp"] = ([["mn", {}], ["tm", {}], ["physgp", {}], ["wave", {}]], [P1])
    F["wb"] = ([["mn", dict(back)], ["wb", {"sel": "backend"}], ["red", dict(red)]], [WB])
    F["wbc"] = ([["mn", dict(back, pars={"efac": "c"})],
                 ["wb", {"pars": {"dmefac": "cs", "log10_dmequad": "c"}}]], [WB])
    F["vector"] = ([["mn", {}], ["tm", {}], ["red", dict(red, spec="free", n=3)],
                    ["red", {"T": T, "n": 520, "name": "big", "coeff": 1}]], [P1])
    # many labels or pulsars (explored by changing one parameter at a time)
    F["labels-solo"] = ([["mn", dict(back, eq=1)], ["tneq", {"sel": "backend"}], ["ecorr", dict(back, method="block", pars={"log10_ecorr": "u"})],
                         ["tm", {}], ["wave", {"sel": "backend"}], ["red", dict(red, sel="backend", name="rb")],
                         ["red", dict(red, sel="backend", name="cb", coeff=1)]], [P6])
    F["labelc-solo"] = ([["mn", dict(back, eq=1, pars={"efac": "c", "log10_t2equad": "c"})], ["becorr", dict(back, pars={"log10_ecorr": "c"})],
                         ["tm", {"marg": 1}], ["wave", {"sel": "backend"}], ["red", dict(red)]], [P6])
    F["wb-solo"] = ([["mn", dict(back)], ["wb", {"sel": "backend", "jsel": "backend"}], ["red", dict(red)]], [W6])
    F["wbj-solo"] = ([["mn", {}], ["wb", {"jsel": "backend"}]], [W6])
    F["wbn-solo"] = ([["mn", {}], ["wb", {"sel": "backend", "jsel": "band"}]], [W6])
    F["psrs-solo"] = ([["mn", dict(back)], ["tm", {}], ["wave", {}], ["red", dict(red)], ["gw", dict(red, orf="hd")]],
                      [dict(P1, name="J%04d+0005" % (i + 1), pos=q, seed=11 + i) for i, q in enumerate(SKY6)])
    return F


DEEP = ["white", "ecorr-sparse", "const-white", "hd", "unc", "vidx", "coeffs", "dense", "wbc", "ephem"]

GROUPS = {
    "white": ["efac", "log10_t2equad", "log10_tnequad", "log10_ecorr", "dmefac", "log10_dmequad"],
    "spec": ["log10_A", "gamma", "log10_rho", "log10_sigma", "log10_lam", "rho_orf"],
    "basis": ["idx", "gate"],
    "delay": ["amp", "phase", "dmjump"],
    "coeff": ["coefficients"],
    "ephem": ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass",
              "d_uranus_mass", "d_neptune_mass", "jup_orb_elements", "sat_orb_elements"],
}


class Live(object):
    """A PTA under exploration."""

    def __init__(self, fam, seed, make=None):
        comps, specs = fams()[fam]
        self.psrs = [psrs.make_psr(psrs.spec(**s), seed) for s in specs]
        self.comps = comps
        self.seed = seed
        self.model = models.Model(comps, self.psrs)
        self.meta = [self.model.metamodel(i) for i in range(len(self.psrs))]

    def new(self):
        """A freshly built identical PTA (new signal classes, new pulsar models)."""
        from enterprise.signals import signal_base

        model = models.Model(self.comps, self.psrs)
        return signal_base.PTA([model.metamodel(i)(p) for i, p in enumerate(self.psrs)])

    def setup(self, pta):
        for i, consts in enumerate(self.consts):
            if i == 0 and consts:
                pta.set_default_params(consts)
        return pta

    def prepare(self):
        pta = self.new()
        free = {p.name: p.size for p in pta.params}
        const = sorted({c.name for m in pta.pulsarmodels for c in m.constants})
        self.points = {}
        v0 = {n: models.value(n, s, 0, self.seed) for n, s in free.items()}
        v1 = {n: models.value(n, s, 1, self.seed) for n, s in free.items()}
        self.points["0"] = v0
        for g, kinds in GROUPS.items():
            names = [n for n in free if models.kind_of(n) in kinds]
            if names:
                self.points[g] = dict(v0, **{n: v1[n] for n in names})
        if "white" in self.points:
            names = [n for n in free if models.kind_of(n) in GROUPS["white"]]
            self.points["white2"] = dict(v0, **{n: models.value(n, free[n], 2, self.seed) for n in names})
        # the values of parameters of one kind, exchanged among each other
        rot = dict(v0)
        for k in sorted({models.kind_of(n) for n in free}):
            names = sorted(n for n in free if models.kind_of(n) == k and not free[n])
            for a, b in zip(names, names[1:] + names[:1]):
                rot[a] = v0[b]
        if rot != v0 and any(rot[n] is not v0[n] for n in rot):
            self.points["rot"] = rot
        vec = sorted(n for n in free if free[n] and free[n] > 1)
        if vec:
            el = {n: (np.array(v) if np.ndim(v) else v) for n, v in v0.items()}
            for n in vec:
                el[n][free[n] // 2] = v1[n][free[n] // 2]
            self.points["elem"] = el
            rev = {n: (np.array(v)[::-1].copy() if n in vec else v) for n, v in v0.items()}
            self.points["rev"] = rev
        if any(models.kind_of(n) in ("rho_orf", "gate") for n in free):
            self.points["zero"] = dict(v0, **{n: 0.0 for n in free if models.kind_of(n) == "rho_orf"})
            for n in free:
                if models.kind_of(n) == "gate":
                    self.points["zero"][n] = 2.0
        if len(self.psrs) > 1:
            # everything of one pulsar changes, the others and the common parameters do not
            for tag, psr in (("first", self.psrs[0]), ("last", self.psrs[-1])):
                mine = [n for n in free if n.startswith(psr.name + "_")]
                if mine:
                    self.points[tag] = dict(v0, **{n: v1[n] for n in mine})
        self.points["all"] = v1
        self.consts = []
        if const:
            self.consts = [{n: models.value(n, None, k, self.seed) for n in const} for k in (3, 4)]
            # the caller's dictionary also has values for the constants, and they take precedence
            self.points["over"] = dict(v0, **{n: models.value(n, None, 5, self.seed) for n in const})
        self.const = const
        self.ref_cache = {}
        n = len(self.psrs)
        rng = np.random.RandomState(self.seed + 17)
        self.rhs = [(rng.randn(len(p.toas)), rng.randn(len(p.toas), 2)) for p in self.psrs]
        self.names = sorted(free)

    # ------------------------------------------------------------ operations

    def accessors(self):
        acc = ["lnl", "lnlp", "lnls", "phi", "pinv", "pinvp", "pinvs", "pinvn", "TNT", "TNr", "rNr", "nd", "basis", "delay",
               "mphi", "mpinv", "mres", "lsp", "lnlvec"]
        if any(k == "gw" and o.get("spec") == "dense" for k, o in self.comps):
            acc = [a for a in acc if a not in ("lnlp", "pinvp")]  # documented as not implemented
        return acc

    reuse = False  # the caller updates one dictionary (and the arrays in it) from call to call

    def point(self, pt, reuse):
        x = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.points[pt].items()}
        if not reuse:
            return x
        if not hasattr(self, "buffer"):
            self.buffer = x
        for k in set(self.buffer) - set(x):
            del self.buffer[k]
        for k, v in x.items():
            if isinstance(v, np.ndarray) and np.shape(self.buffer.get(k)) == v.shape:
                self.buffer[k][...] = v
            else:
                self.buffer[k] = v
        return self.buffer

    def apply(self, pta, op, reuse=None):
        acc, pt = op
        if acc == "set":
            pta.set_default_params(self.consts[pt])
            return None
        x = self.point(pt, self.reuse if reuse is None else reuse)
        if acc == "lnl":
            return pta.get_lnlikelihood(x)
        if acc == "lnlvec":
            return pta.get_lnlikelihood(np.concatenate([np.zeros(0)] + [np.atleast_1d(x[n]) for n in self.names]))
        if acc == "lnlp":
            return pta.get_lnlikelihood(x, phiinv_method="partition")
        if acc == "lnls":
            return pta.get_lnlikelihood(x, phiinv_method="sparse")
        if acc == "phi":
            return pta.get_phi(x)
        if acc == "pinv":
            return pta.get_phiinv(x, logdet=True)
        if acc == "pinvp":
            return pta.get_phiinv(x, logdet=True, method="partition")
        if acc == "pinvs":
            return pta.get_phiinv(x, logdet=True, method="sparse")
        if acc == "pinvn":
            return pta.get_phiinv(x, logdet=False)
        if acc == "TNT":
            return pta.get_TNT(x)
        if acc == "TNr":
            return pta.get_TNr(x)
        if acc == "rNr":
            return pta.get_rNr_logdet(x)
        if acc == "nd":
            ret = []
            for nd, (v, m), M in zip(pta.get_ndiag(x), self.rhs, pta.pulsarmodels):
                ret.append([nd.solve(v, left_array=v, logdet=True), nd.solve(m, left_array=m), nd.solve(v, left_array=m)])
            return ret
        if acc == "basis":
            return pta.get_basis(x)
        if acc == "delay":
            return pta.get_delay(x)
        if acc == "lsp":
            return pta.get_logsignalprior(x)
        if acc == "mphi":
            return [m.get_phi(x) for m in pta.pulsarmodels]
        if acc == "mpinv":
            return [m.get_phiinv(x) for m in pta.pulsarmodels]
        if acc == "mres":
            return [m.get_detres(x) for m in pta.pulsarmodels]
        raise ValueError(acc)

    def ref(self, op, cstate):
        k = (tuple(op), cstate)
        if k not in self.ref_cache:
            pta = self.new()
            if cstate is not None:
                pta.set_default_params(self.consts[cstate])
            if op[1] == "over" and op[0] != "lnlvec":
                pta.set_default_params({n: self.points["over"][n] for n in self.const})
                op = (op[0], "0")
            self.ref_cache[k] = flat(self.apply(pta, op, False))
        return self.ref_cache[k]

    def ops(self, accs, pts):
        return [(a, p) for a in accs for p in pts]


def flat(x):
    """Nested result -> list of plain float arrays (copies) with a structure tag."""
    out = []

    def walk(o):
        if o is None:
            out.append(np.zeros(0))
        elif isinstance(o, dict):
            for k in sorted(o):
                walk(o[k])
        elif isinstance(o, (list, tuple)):
            for y in o:
                walk(y)
        elif hasattr(o, "toarray"):
            out.append(np.array(o.toarray(), dtype="d"))
        else:
            out.append(np.array(np.asarray(o), dtype="d"))

    walk(x)
    return out


def differs(a, b):
    if len(a) != len(b):
        return True
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return True
        if x.size:
            ok = np.isfinite(y)
            if not np.array_equal(ok, np.isfinite(x)):
                return True
            if not np.any(ok):
                continue
            s = np.max(np.abs(y[ok]))
            if not np.all(np.abs(x - y)[ok] <= 1e-7 * np.abs(y[ok]) + 1e-9 * s):
                return True
    return False


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def run_history(live, pta, history, stats, cstate=None, window=6, ctag=""):
    kept = []
    for n, op in enumerate(history):
        if op[0] == "set":
            live.apply(pta, op)
            cstate = op[1]
            stats["transitions"] += 1
            continue
        raw = live.apply(pta, op)
        stats["transitions"] += 1
        got = flat(raw)
        ref = live.ref(op, cstate)
        if differs(got, ref):
            raise engine.Violation(
                "after %s%s, %s differs from the answer of a fresh PTA" % (ctag, history[max(0, n - 12) : n], op),
                data={"history": history[max(0, n - 60) : n + 1], "got": str(got)[:400], "fresh": str(ref)[:400]},
            )
        for op0, raw0, got0 in kept[-window:]:
            if not same(flat(raw0), got0):
                raise engine.Violation(
                    "the array returned by %s was changed by a later %s (history %s)" % (op0, op, history[max(0, n - 6) : n + 1])
                )
        kept.append((op, raw, got))
    for op0, raw0, got0 in kept:
        if not same(flat(raw0), got0):
            raise engine.Violation("the array returned by %s was changed later (history of %d calls)" % (op0, len(history)))


def pair_tour(n):
    """Sequence over range(n) in which every ordered pair (including repeats) occurs consecutively."""
    # Eulerian circuit of the complete digraph with loops
    nxt = [0] * n
    stack, tour = [0], []
    while stack:
        v = stack[-1]
        if nxt[v] < n:
            w = nxt[v]
            nxt[v] += 1
            stack.append(w)
        else:
            tour.append(stack.pop())
    return tour[::-1]


def de_bruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def cases(tier, seed):
    ret = []
    solo = [f for f in fams() if f.endswith("-solo")]
    rest = [f for f in fams() if not f.endswith("-solo")]
    for f in solo + rest:
        ret.append({"family": f, "mode": "solo", "full": tier == "thorough"})
    for f in rest:
        ret.append({"family": f, "mode": "fresh-acc", "depth": 2 if tier == "quick" else 3})
    for f in rest:
        ret.append({"family": f, "mode": "fresh-lnl", "depth": 3 if tier == "quick" else 4})
    for f in rest:
        ret.append({"family": f, "mode": "pairs", "full": tier == "thorough"})
        ret.append({"family": f, "mode": "near", "full": tier == "thorough"})
        ret.append({"family": f, "mode": "many", "n": 150 if tier == "quick" else 1200})
    if tier == "thorough":
        for f in rest:
            ret.append({"family": f, "mode": "triples"})
    # split the costly ones by their first operation
    out = []
    for c in ret:
        if c["mode"].startswith("fresh"):
            nsplit = 4 if tier == "quick" else 16
            out += [dict(c, part=i, of=nsplit) for i in range(nsplit)]
        else:
            out.append(c)
    return out


NEAR = [1e-4, -1e-5, 1e-6, 3e-8]


def run_near(live, begin, full):
    """Neighbouring parameter values are different values: the answer is that of a fresh PTA, not that of the neighbour."""
    v0, n = live.points["0"], 0
    kinds = [[k for k in v0 if models.kind_of(k) == kind] for kind in sorted({models.kind_of(k) for k in v0})]
    groups = [g for g in kinds if models.kind_of(g[0]) != "gate"]
    if full:
        groups += [[k] for k in v0 if models.kind_of(k) != "gate"]
    tags = []
    for i, g in enumerate(groups):
        for d in NEAR:
            tag = "near%d:%g" % (i, d)
            live.points[tag] = dict(v0, **{k: v0[k] * (1 + d) for k in g})
            tags.append((tag, g, d))
    told = 0
    for acc in [a for a in ("lnl", "phi", "pinv", "nd", "delay", "TNT", "rNr", "basis", "mphi") if a in live.accessors()]:
        pta, c = begin()
        base = live.ref((acc, "0"), c)
        for tag, g, d in tags:
            new = live.ref((acc, tag), c)
            for pt, want, other in ((tag, new, base), ("0", base, new)):
                got = flat(live.apply(pta, (acc, pt)))
                n += 1
                if [a.shape for a in got] != [a.shape for a in want] or [a.shape for a in other] != [a.shape for a in want]:
                    raise engine.Violation("%s at %s has another shape than that of a fresh PTA" % (acc, pt))
                for x, y, z in zip(got, want, other):
                    if not y.size:
                        continue
                    ok = np.isfinite(y) & np.isfinite(z) & np.isfinite(x)
                    gap = np.abs(y - z)
                    with np.errstate(invalid="ignore"):
                        far = ok & (gap > 1e-8 * np.abs(y) + 1e-10 * np.max(np.abs(y[ok]), initial=0.0))
                        told += int(np.any(far))
                        if np.any(np.abs(x - y)[far] > 0.5 * gap[far]):
                            raise engine.Violation("after a change of %s by a factor of 1 %+g, %s is that of the other point" % (g, d, acc))
    return n, told


def run_solo(live, begin, full, stats):
    """Every parameter (every constant) changes alone, there and back."""
    v0, v1 = live.points["0"], live.points["all"]
    tags = []
    for n in live.names:
        if not np.ndim(v0[n]):
            live.points["s:" + n] = dict(v0, **{n: v1[n]})
            tags.append("s:" + n)
            continue
        size = len(v0[n])
        for k in sorted({0, 1, size // 2, size - 2, size - 1} & set(range(size))):
            x = np.array(v0[n], dtype=float)
            x[k] = v1[n][k]
            live.points["s:%s:%d" % (n, k)] = dict(v0, **{n: x})
            tags.append("s:%s:%d" % (n, k))
    few = live.accessors() if full else [a for a in ("lnl", "phi", "nd", "delay", "lsp") if a in live.accessors()]
    for acc in few:
        pta, c = begin()
        hist = [(acc, "0")]
        for t in tags:
            hist += [(acc, t), (acc, "0")]
        run_history(live, pta, hist, stats, c)
        stats["states"] += len(hist)
        if live.consts:
            pta, c = begin()
            hist, first = [("set", 0), (acc, "0")], len(live.consts)
            for n in live.const:
                live.consts.append(dict(live.consts[0], **{n: live.consts[1][n]}))
                hist += [("set", len(live.consts) - 1), (acc, "0"), ("set", 0), (acc, "0")]
            run_history(live, pta, hist, stats, c)
            stats["states"] += len(hist)


def run_many(live, begin, npoints, stats):
    """Many different points, then all of them again in two orders."""
    v0, v1 = live.points["0"], live.points["all"]
    tags = []
    for k in range(npoints):
        t = k / float(npoints)
        live.points["m%d" % k] = {n: v0[n] if models.kind_of(n) == "gate" else v0[n] + t * (v1[n] - v0[n]) for n in v0}
        tags.append("m%d" % k)
    pta, c = begin()
    run_history(live, pta, [("lnl", t) for t in tags + tags + tags[::-1]], stats, c)
    stats["states"] += 3 * npoints


def run_case(desc, seed):
    live = Live(desc["family"], seed)
    live.prepare()
    stats = {"states": 0, "transitions": 0}
    pts = list(live.points)
    sets = [("set", 0), ("set", 1)] if live.consts else []
    mode = desc["mode"]
    live.reuse = mode in ("pairs", "triples", "fresh-acc")

    def begin():
        pta = live.new()
        if live.consts and any(k == "cs" for _, o in live.comps for k in o.get("pars", {}).values()):
            pta.set_default_params(live.consts[0])
            return pta, 0
        return pta, None

    if mode == "near":
        stats["states"], told = run_near(live, begin, desc["full"])
        stats["transitions"] = stats["states"]
        if live.names and not told:
            raise engine.Violation("no answer depends on the parameters")
    elif mode == "solo":
        run_solo(live, begin, desc["full"], stats)
    elif mode == "many":
        run_many(live, begin, desc["n"], stats)
    elif mode == "pairs":
        accs = live.accessors()
        use = pts
        if not desc["full"]:
            accs = [a for a in accs if a not in ("lnlvec", "pinvn", "mres", "mphi")]
            use = [p for p in pts if p not in ("rev", "white2")]
        ops = live.ops(accs, use) + sets
        hist = [ops[i] for i in pair_tour(len(ops))]
        pta, c = begin()
        run_history(live, pta, hist, stats, c)
        stats["states"] = len(hist)
    elif mode == "triples":
        accs = [a for a in ("lnl", "pinv", "phi", "TNT", "delay") if a in live.accessors()]
        ops = live.ops(accs, pts[:4]) + sets
        hist = [ops[i] for i in de_bruijn(len(ops), 3)]
        pta, c = begin()
        run_history(live, pta, hist, stats, c)
        stats["states"] = len(hist)
    else:
        if mode == "fresh-lnl":
            ops = live.ops(["lnl"], pts) + sets
        elif desc["depth"] == 2:
            few = [p for p in pts if p in ("0", "spec", "basis", "delay", "white")]
            ops = live.ops(live.accessors(), few) + sets
        else:
            ops = live.ops(["lnl", "phi", "pinv", "TNT", "basis", "delay", "nd"], pts[:4]) + sets
        last = ops
        if mode == "fresh-acc" and desc["depth"] == 2:
            # the second operation: every accessor at the first point, the likelihood everywhere
            last = [op for op in ops if op[1] == "0" or op[0] in ("lnl", "set", "phi", "delay")]
        for k, first in enumerate(ops):
            if k % desc["of"] != desc["part"]:
                continue
            for rest in itertools.product(*([ops] * (desc["depth"] - 2) + [last])):
                pta, c = begin()
                run_history(live, pta, [first] + list(rest), stats, c, ctag="(fresh) ")
                stats["states"] += 1
    stats["traces"] = stats["states"]
    stats["evaluations"] = stats["transitions"]
    stats["outcomes"] = [mode] + [engine.outcome_hash([a.tolist() for a in r]) for r in live.ref_cache.values()]
    stats["sample"] = {"points": pts, "parameters": len(live.names)}
    return stats
