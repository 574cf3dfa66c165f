"""C14: per-TOA data stay aligned when a pulsar is sorted, filtered or reflagged."""

import itertools

import numpy as np

from mc import engine, pintstub, psrs

LEVEL = "model_checking"
ASSUMPTIONS = [
    "timing packages are replaced by stubs that deliver recorded arrays",
    "2-5, 17, 41 or 1300 TOAs, every observation carries distinct data in every array",
]
BOUNDS = {
    "quick": "orders: all permutations of 2-5 TOAs x all tie patterns x sort on/off x tempo2/PINT x equatorial/ecliptic, 17, 41 and 1300 TOAs x 4 orders x 6 repeated tie patterns; histories: all "
    "permutations of 4 TOAs x sort x source x all sequences of up to 2 operations (time windows with edges at, between and outside TOAs; "
    "new and existing flags); labels: all 3^7 presence patterns of the flags that make backend labels",
    "thorough": "histories of up to 3 operations",
}

DMX = {"DMX_0001": 0.0, "DMX_0002": 0.0, "DMX_0003": 0.0}


def cases(tier, seed):
    ret = []
    for src in ("t2", "pint"):
        for sort in (True, False):
            for n in (2, 3, 4, 5):
                for tie in range(2 ** (n - 1)):
                    ret.append({"orders": n, "tie": tie, "src": src, "sort": sort})
            for n in (17, 41, 1300):  # many TOAs
                ret.append({"large": n, "src": src, "sort": sort})
    for src in ("t2", "pint"):
        ret.append({"noplanets": src})
        for k in range(9):
            ret.append({"labels": k, "src": src})
    depth = 2 if tier == "quick" else 3
    for src in ("t2", "pint"):
        for sort in (True, False):
            for perm in itertools.permutations(range(4)):
                ret.append({"history": list(perm), "src": src, "sort": sort, "depth": depth})
    return ret


def records(n, tie, seed, name="J0007+0007", ecl=False):
    """Arrays in time order (equal times where `tie` says so), all different."""
    sp = psrs.spec(name=name, layout="|".join("ABCD"[i % 4] for i in range(n)), tm=["off", "F0", "PB"], span=700.0)
    raw = psrs.seeded_raw(sp, seed)
    for i in range(1, n):
        if (tie >> (i - 1)) & 1:
            raw["toas"][i] = raw["toas"][i - 1]
    # site times before and after the barycentric ones
    i = np.arange(n)
    raw["stoas"] = raw["toas"] + 2.3e-3 * (1 + 0.01 * i) * (-1.0) ** (i // 2)
    # DMX columns: the first two TOAs, the third one, the others
    groups = {"DMX_0001": [0, 1], "DMX_0002": [2], "DMX_0003": list(range(3, n))}
    cols = [raw["designmatrix"]]
    for k, rows in sorted(groups.items()):
        c = np.zeros(n)
        c[[r for r in rows if r < n]] = 1.0 + 0.1 * np.arange(len([r for r in rows if r < n]))
        cols.append(c[:, None])
        raw["fitpars"].append(k)
        raw["setpars"].append(k)
        raw["vals"][k] = psrs._Par(1e-3 * int(k[-1]), 1e-4)
        raw["vals"][k[:3] + "R1" + k[3:]] = psrs._Par(53000.0 + int(k[-1]))
        raw["vals"][k[:3] + "R2" + k[3:]] = psrs._Par(53001.0 + int(k[-1]))
    # a DMX parameter that is set but not fitted (no column)
    raw["setpars"].append("DMX_0004")
    raw["vals"].update({"DMX_0004": psrs._Par(4e-3, 1e-4), "DMXR1_0004": psrs._Par(53004.0), "DMXR2_0004": psrs._Par(53005.0)})
    # one more column without effect on the last TOA, after the DMX ones
    c = np.ones(n) * 3.0
    c[-1] = 0.0
    cols.append(c[:, None])
    z = np.zeros(n)
    z[0], z[1] = 1.0, -1.0  # sums to zero, but has an effect
    cols.append(z[:, None])
    raw["fitpars"] += ["JUMP1", "JUMP2"]
    raw["designmatrix"] = np.hstack(cols)
    raw["flags"]["g"] = np.array(["" if i % 2 else "group-of-%d" % i for i in range(n)])
    if ecl:
        raw["vals"]["ELONG"], raw["vals"]["ELAT"] = psrs._Par(1.1), psrs._Par(0.3)
        del raw["vals"]["RAJ"], raw["vals"]["DECJ"]
        raw["setpars"] = [p for p in raw["setpars"] if p not in ("RAJ", "DECJ")] + ["ELONG", "ELAT"]
    return raw


PER_TOA = ["toas", "stoas", "toaerrs_us", "residuals", "designmatrix", "freqs_hz", "telescope", "psrPos", "planets", "sun", "letters"]


def permuted(raw, perm):
    ret = dict(raw)
    perm = list(perm)
    for k in PER_TOA:
        ret[k] = raw[k][perm]
    ret["flags"] = {k: v[perm] for k, v in raw["flags"].items()}
    return ret


def build(raw, src, sort, **kw):
    if src == "t2":
        return psrs.from_raw(raw, sort=sort, **kw)
    return pintstub.make(raw, sort=sort, **kw)


ECL = 23.43704 * np.pi / 180  # obliquity


def rotate(v):
    c, s = np.cos(ECL), np.sin(ECL)
    R = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    return np.array([R @ x for x in v])


class Ref(object):
    """The pulsar as a list of records in the order in which they should be seen."""

    def __init__(self, raw, src, sort, ecl=False):
        self.raw, self.src, self.sort = raw, src, sort
        self.rows = list(range(len(raw["toas"])))
        self.delivered = list(self.rows)
        if sort:
            self.rows.sort(key=lambda i: raw["toas"][i])  # stable
        self.cols = list(range(raw["designmatrix"].shape[1]))
        self.flags = {k: [str(x) for x in v] for k, v in raw["flags"].items()}
        if src == "pint":
            self.flags = {k: v for k, v in self.flags.items() if any(v)}
        self.ecl = ecl

    def filter(self, lo, hi):
        t = self.raw["toas"]
        keep = [i for i in self.rows if (lo is None or t[i] >= lo) and (hi is None or t[i] <= hi)]
        self.rows = keep
        self.delivered = [i for i in self.delivered if i in keep]
        M = self.raw["designmatrix"]
        self.cols = [c for c in self.cols if any(M[i, c] != 0 for i in keep)]

    def set_flag(self, k, vals):
        col = self.flags.setdefault(k, [None] * len(self.raw["toas"]))
        for i, v in zip(self.rows, vals):
            col[i] = v

    def backend(self):
        ret = []
        f = self.flags
        for i in self.rows:
            v = ""
            if f.get("fe", [""] * 99)[i] and f.get("be", [""] * 99)[i]:
                v = f["fe"][i] + "_" + f["be"][i]
            for k in ("f", "i", "sys", "g", "group"):
                if k in f and f[k][i]:
                    v = f[k][i]
            ret.append(v)
        return ret


def compare(psr, ref, label, planets=True):
    raw, rows = ref.raw, ref.rows
    same = lambda a, b: np.shape(a) == np.shape(b) and np.array_equal(a, b)  # noqa: E731
    near = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-300)  # noqa: E731

    def bad(what, got, want):
        raise engine.Violation("%s is %s, expected %s (%s)" % (what, np.asarray(got).tolist(), np.asarray(want).tolist(), label))

    n = 0
    pt = raw["psrPos"][rows]
    if ref.ecl and ref.src == "t2":
        pt = rotate(pt)
    checks = [
        ("toas", psr.toas, raw["toas"][rows] * 86400.0, near),
        ("stoas", psr.stoas, raw["stoas"][rows] * 86400.0, near),
        ("toaerrs", psr.toaerrs, raw["toaerrs_us"][rows] * 1e-6, near),
        ("residuals", psr.residuals, raw["residuals"][rows], near),
        ("freqs", psr.freqs, raw["freqs_hz"][rows] / 1e6, near),
        ("telescope", [str(x) for x in psr.telescope], [x.decode() for x in raw["telescope"][rows]], same),
        ("Mmat", psr.Mmat, raw["designmatrix"][np.ix_(rows, ref.cols)] if rows else np.zeros((0, len(ref.cols))), same),
        ("pos_t", psr.pos_t, pt.reshape(-1, 3), lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-9)),
        ("backend_flags", [str(x) for x in psr.backend_flags], ref.backend(), same),
    ]
    if planets:
        pl, sun = raw["planets"][rows].copy(), raw["sun"][rows].copy()
        if ref.ecl and ref.src == "t2" and rows:
            pl = np.array([np.hstack([rotate(p[:, :3]), rotate(p[:, 3:])]) for p in pl])
            sun = np.hstack([rotate(sun[:, :3]), rotate(sun[:, 3:])])
        p = psr.planetssb
        if ref.src == "pint":
            sel = [2, 4, 5, 6, 7]
            p, pl = p[:, sel, :3], pl[:, sel, :3]
            sun = np.hstack([sun[:, :3], np.zeros((len(rows), 3))])

        def ok(a, b):
            # positions and velocities of every body on their own scale
            if np.shape(a) != np.shape(b):
                return False
            a, b = np.asarray(a), np.asarray(b)
            for k in range(0, b.shape[-1], 3):
                u, v = a[..., k : k + 3], b[..., k : k + 3]
                scale = np.max(np.abs(v), axis=(0, -1), keepdims=True) if v.size else 0.0
                if not np.all(np.abs(u - v) <= 1e-6 * scale):
                    return False
            return True

        checks += [("planetssb", p, pl, ok), ("sunssb", psr.sunssb, sun, ok)]
    for what, got, want, eq in checks:
        if not eq(got, want):
            bad(what, got, want)
        n += 1
    fl = psr.flags
    if sorted(fl) != sorted(ref.flags):
        bad("flags", sorted(fl), sorted(ref.flags))
    for k in fl:
        want = [ref.flags[k][i] for i in rows]
        if [str(x) for x in fl[k]] != want:
            bad("flag " + k, fl[k], want)
        n += 1
    names = ["Offset"] + raw["fitpars"]
    if list(psr.fitpars) != [names[c] for c in ref.cols]:
        bad("fitpars", psr.fitpars, [names[c] for c in ref.cols])
    if ref.src == "pint" and list(psr.designmatrix_units) != ["unit_" + names[c] for c in ref.cols]:
        bad("designmatrix_units", psr.designmatrix_units, [names[c] for c in ref.cols])
    dmx = {}
    for c in ref.cols:
        k = names[c]
        if k.startswith("DMX_"):
            v = raw["vals"]
            dmx[k] = {"DMX": v[k].val, "DMXerr": v[k].err, "DMXR1": v[k[:3] + "R1" + k[3:]].val, "DMXR2": v[k[:3] + "R2" + k[3:]].val, "fit": True}
    if ref.src == "t2":  # PINT pulsars list the fitted ones only
        dmx["DMX_0004"] = {"DMX": 4e-3, "DMXerr": 1e-4, "DMXR1": 53004.0, "DMXR2": 53005.0, "fit": False}
    if (psr.dmx or {}) != dmx:
        bad("dmx", sorted(psr.dmx or {}), sorted(dmx))
    # isort and iisort map the delivered order to the reported one and back
    d = np.array([raw["toas"][i] * 86400.0 for i in ref.delivered])
    if len(d) and not (near(d[psr.isort], psr.toas) and near(psr.stoas[psr.iisort], raw["stoas"][ref.delivered] * 86400.0)):
        bad("isort", d[psr.isort], psr.toas)
    return n + 4


def windows(raw):
    t = np.sort(raw["toas"])
    mids = [t[0] - 1.0] + [0.5 * (a + b) for a, b in zip(t[:-1], t[1:])] + [t[-1] + 1.0]
    return [
        (None, None), (mids[1], None), (None, mids[2]), (t[1], t[2]), (mids[1], mids[3]), (t[2], None), (None, t[0]), (mids[2], mids[2]),
        (t[3], mids[4]), (mids[0], t[1]), (mids[4], None), (None, 0.0), (0.0, mids[3]),
    ]


def run_case(desc, seed):
    n, states, outs = 0, 0, set()
    if "orders" in desc:
        N = desc["orders"]
        for ecl in (False, True):
            base = records(N, desc["tie"], seed, ecl=ecl)
            for perm in itertools.permutations(range(N)):
                raw = permuted(base, perm)
                psr = build(raw, desc["src"], desc["sort"])
                n += compare(psr, Ref(raw, desc["src"], desc["sort"], ecl), dict(desc, perm=perm, ecl=ecl))
                states += 1
                outs.add(str([str(x) for x in psr.flags["id"]]))
        return {"states": states, "transitions": states, "evaluations": n, "traces": states, "outcomes": sorted(outs)}

    if "large" in desc:
        N = desc["large"]
        perms = [list(range(N)), list(range(N))[::-1], list(range(1, N, 2)) + list(range(0, N, 2)), [(7 * i + 3) % N for i in range(N)]]
        for ecl in (False, True):
            for tie in (0, 0b1, 0b10, 0b110, 0b1011, 0b11101111) if N < 1000 else (0, 0b110):
                word = "{:b}".format(tie)
                base = records(N, int((word * N)[: N - 1], 2), seed, ecl=ecl)
                for perm in perms:
                    raw = permuted(base, perm)
                    psr = build(raw, desc["src"], desc["sort"])
                    ref = Ref(raw, desc["src"], desc["sort"], ecl)
                    n += compare(psr, ref, dict(desc, perm=perm, ecl=ecl))
                    t = np.sort(raw["toas"])
                    psr.filter_data(t[3], t[N - 3])
                    ref.filter(t[3], t[N - 3])
                    n += compare(psr, ref, dict(desc, perm=perm, ecl=ecl, filtered=True))
                    states += 1
                    outs.add(str([str(x) for x in psr.flags["id"]]))
        return {"states": states, "transitions": states, "evaluations": n, "traces": states, "outcomes": sorted(outs)}

    if "noplanets" in desc:
        raw = permuted(records(4, 0, seed), [2, 0, 3, 1])
        for lo, hi in windows(raw):
            psr = build(dict(raw, with_planets=False), desc["noplanets"], True, planets=False)
            ref = Ref(raw, desc["noplanets"], True)
            psr.filter_data(lo, hi)
            ref.filter(lo, hi)
            n += compare(psr, ref, (desc, lo, hi), planets=False)
            states += 1
        return {"states": states, "transitions": states, "evaluations": n, "traces": states, "outcomes": ["ok"]}

    if "labels" in desc:
        keys = ["group", "g", "sys", "i", "f", "fe", "be"]
        for j, pat in enumerate(itertools.product("-e+", repeat=7)):
            if j % 9 != desc["labels"]:
                continue
            raw = records(3, 0, seed)
            fl = {"other": np.array(["x", "", "yy"])}
            for q, (k, p) in enumerate(zip(keys, pat)):
                if p == "-":
                    continue
                # widths differ: the longest label may come from any flag
                w = "L" * ((q * 5 + j) % 7)
                fl[k] = np.array([k + "0" + w, "" if p == "e" else k + "1", k + "2" if (j >> q) & 1 else ""])
            raw["flags"] = fl
            raw = permuted(raw, [2, 0, 1])
            psr = build(raw, desc["src"], True)
            n += compare(psr, Ref(raw, desc["src"], True), dict(desc, pattern="".join(pat)))
            states += 1
            outs.add(str([str(x) for x in psr.backend_flags]))
        return {"states": states, "transitions": states, "evaluations": n, "traces": states, "outcomes": sorted(outs)}

    raw = permuted(records(4, 0, seed), desc["history"])
    ops = [("window", w) for w in windows(raw)]
    if desc["src"] == "pint":
        ops += [("flag", "new"), ("flag", "f")]
    seqs = [s for d in range(desc["depth"] + 1) for s in itertools.product(range(len(ops)), repeat=d)]
    for seq in seqs:
        if len(seq) == 3 and sum(ops[k][0] == "flag" for k in seq) == 0 and seq[0] > seq[1]:
            continue  # windows commute; the two-step sequences check that
        psr = build(raw, desc["src"], desc["sort"])
        ref = Ref(raw, desc["src"], desc["sort"])
        for step, k in enumerate(seq):
            kind, arg = ops[k]
            if kind == "window":
                psr.filter_data(*[x for x in arg])
                ref.filter(*arg)
            else:
                vals = np.array(["%s-%d-value-of-%d" % (arg, step, i) for i in range(len(ref.rows))])
                if not len(vals):
                    continue
                psr.set_flags(arg, vals)
                ref.set_flag(arg, list(vals))
        n += compare(psr, ref, dict(desc, seq=[ops[k] for k in seq]))
        states += 1
        outs.add(str([str(x) for x in psr.flags["id"]]))
    return {"states": states, "transitions": sum(len(s) for s in seqs), "evaluations": n, "traces": states, "outcomes": sorted(outs)}
