"""C11: hierarchical parameters are sampled and evaluated consistently."""

import itertools

import numpy as np

from mc import engine, psrs, rng
from mc.props import c10

LEVEL = "model_checking"
ASSUMPTIONS = ["acyclic dependencies; hyperfunction arguments named differently from the outer arguments"]
BOUNDS = {
    "quick": "all graphs of 3 parameters (first argument: number, own hyperparameter, earlier parameter, function of own/earlier; "
    "second argument: number, own, function of own, function of the previous) x all orders and subsets of the list; all graphs of 4 "
    "parameters over the first argument x 24 orders; 3 type rotations with vectors (one with vectors of vectors); 2 generator answers; "
    "every assignment of {number, own hyperparameter, function of a named hyperparameter} to the 2-4 arguments of the five prior "
    "types x sizes {None, 1, 3, 14} x 2 values of the hyperparameters x the C10 grid x generator answers with rejections",
    "thorough": "all graphs of 4 parameters over both arguments, orders sorted, reversed and rotated",
}

FIRST = {"Uniform": 1.0, "Normal": 0.7, "LinearExp": 0.1}
ARGN = {"Uniform": ("pmin", "pmax"), "Normal": ("mu", "sigma"), "LinearExp": ("pmin", "pmax")}
TYPES = [[("Uniform", None), ("Normal", None), ("LinearExp", None), ("Normal", 2)],
         [("Normal", None), ("Uniform", 2), ("Normal", None), ("Uniform", None)],
         [("Uniform", 2), ("Normal", 2), ("LinearExp", 2), ("Normal", 2)]]


def first_options(i):
    return ["n", "o", "fo"] + [("r", j) for j in range(i)] + [("fr", j) for j in range(i)]


def second_options(i):
    return ["n", "o", "fo"][: 3 if i else 2] + ([("fr", i - 1)] if i else [])


def cases(tier, seed):
    g3 = list(itertools.product(*[list(itertools.product(first_options(i), second_options(i))) for i in range(3)]))
    g4 = list(itertools.product(*[[(a, "n") for a in first_options(i)] for i in range(4)]))
    ret = []
    for k in (1, 2):
        gs = list(itertools.product(*[list(itertools.product(first_options(i), second_options(i))) for i in range(k)]))
        ret += [{"graphs": gs[i : i + 40], "orders": "all", "rot": r} for i in range(0, len(gs), 40) for r in (0, 1, 2)]
    ret += [{"graphs": g3[i : i + 60], "orders": "all", "rot": (i // 60) % 3} for i in range(0, len(g3), 60)]
    ret += [{"graphs": g4[i : i + 40], "orders": "all", "rot": r} for i in range(0, len(g4), 40) for r in ((i // 40) % 2, 2)]
    for kind, pts in c10.ARGS.items():
        ret += [{"hyper": kind, "args": a, "flags": fl, "size": size} for a in (pts if tier == "thorough" else pts[:2])
                for fl in itertools.product((0, 1, 2), repeat=len(a)) if any(fl) for size in (None, 1, 3) + ((14,) if fl == (2, 0) or fl == (1, 1) else ())]
    ret = [c for c in ret if "graphs" in c] + [{"hypers": h[i : i + 40]} for h in [[c for c in ret if "hyper" in c]]
                                               for i in range(0, len(h), 40)]
    if tier == "thorough":
        g4 = list(itertools.product(*[list(itertools.product(first_options(i), second_options(i))) for i in range(4)]))
        ret += [{"graphs": g4[i : i + 600], "orders": "few", "rot": (i // 600) % 2} for i in range(0, len(g4), 600)]
    return ret


class Node(object):
    def __init__(self, name, typ, size, args):
        self.name, self.typ, self.size, self.args = name, typ, size, args  # args: functions of the values

    def argv(self, vals):
        return [a(vals) for a in self.args]


def build(graph, rot):
    """enterprise parameters p0.. and the reference nodes {name: Node} they imply, with direct dependencies."""
    from enterprise.signals import parameter

    @parameter.function
    def shrink(x):
        return 0.4 + 0.1 * x

    @parameter.function
    def sigma_of(x):
        return 0.5 + 0.1 * np.arctan(x)

    def upper_of(i):
        # upper bounds grow with the node, so that intervals are never empty
        @parameter.function
        def upper(x):
            return 10.0 * (i + 1) + 5 + np.arctan(x)

        return upper

    pars, ref, deps = [], {}, {}

    def add(name, typ, size, args, dep):
        ref[name] = Node(name, typ, size, args)
        deps[name] = dep

    for i, (a, b) in enumerate(graph):
        typ, size = TYPES[rot][i]
        name = "p%d" % i
        given, args, dep = [], [], []
        for k, src in enumerate((a, b)):
            kw = ARGN[typ][k]
            if k == 0:
                num, lohi, func, fref = FIRST[typ], (0.2, 1.0), shrink, lambda x: 0.4 + 0.1 * x
            elif typ == "Normal":
                num, lohi, func, fref = 1.3, (0.5, 1.0), sigma_of, lambda x: 0.5 + 0.1 * np.arctan(x)
            else:
                num, lohi, func = 10.0 * (i + 1), (10.0 * (i + 1) + 6, 10.0 * (i + 1) + 7), upper_of(i)
                fref = lambda x, i=i: 10.0 * (i + 1) + 5 + np.arctan(x)  # noqa: E731
            if src == "n":
                given.append(num)
                args.append(lambda v, num=num: num)
            elif src == "o":
                given.append(parameter.Uniform(*lohi))
                h = name + "_" + kw
                add(h, "Uniform", None, [lambda v, x=x: x for x in lohi], [])
                args.append(lambda v, h=h: v[h])
                dep.append(h)
            elif src == "fo":
                given.append(func(x=parameter.Uniform(0.2, 1.0)))
                h = name + "_" + kw + "_x"
                add(h, "Uniform", None, [lambda v: 0.2, lambda v: 1.0], [])
                args.append(lambda v, h=h, f=fref: f(v[h]))
                dep.append(h)
            elif src[0] == "r":
                given.append(pars[src[1]])
                h = "p%d" % src[1]
                args.append(lambda v, h=h: v[h])
                dep.append(h)
            else:
                given.append(func(x=pars[src[1]]))
                h = "p%d" % src[1]
                args.append(lambda v, h=h, f=fref: f(v[h]))
                dep.append(h)
        pars.append(getattr(parameter, typ)(*given, size=size)(name))
        add(name, typ, size, args, dep)
    return pars, ref, deps


def valid(graph, rot):
    """Vectors are only used as leaves or for vectors (a scalar parameter cannot have a vector argument)."""
    if len({size for _, size in TYPES[rot]}) == 1:
        return True
    for i, (a, b) in enumerate(graph):
        for s in (a, b):
            if not isinstance(s, str) and TYPES[rot][s[1]][1] is not None:
                return False
    return True


def closure(names, deps):
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n not in out:
            out.append(n)
            todo += deps[n]
    return out


def unit(node, vals):
    a, b = node.argv(vals)
    x = np.atleast_1d(vals[node.name])
    if node.typ == "Normal":
        return ((x - a) / b).tolist()
    if node.typ == "LinearExp":
        return ((10**x - 10**a) / (10**b - 10**a)).tolist()
    return ((x - a) / (b - a)).tolist()


def logpdf(node, vals):
    a, b = node.argv(vals)
    x = np.atleast_1d(vals[node.name])
    if node.typ == "Normal":
        a, b = a * np.ones(len(x)), b * np.ones(len(x))
        return float(np.sum(-0.5 * ((x - a) / b) ** 2 - 0.5 * np.log(2 * np.pi * b * b)))
    inside = np.all((x >= a) & (x <= b))
    if not inside:
        return -np.inf
    if node.typ == "LinearExp":
        return float(np.sum(np.log(np.log(10) * 10**x / (10**b - 10**a))))
    return float(-np.sum(np.log(b - a) * np.ones(len(x))))


ANSWERS = [[0.11 + 0.037 * i for i in range(22)], [0.89 - 0.0311 * i for i in range(22)]]


def run_graph(graph, rot, orders, counters, outs):
    from enterprise.signals import parameter

    graph = [tuple(tuple(s) if isinstance(s, list) else s for s in g) for g in graph]
    if not valid(graph, rot):
        return
    pars, ref, deps = build(graph, rot)
    k = len(pars)
    where = "graph %s types %s" % (graph, TYPES[rot][:k])
    if orders == "all":
        lists = [p for r in ([k] if k > 3 else range(1, k + 1)) for p in itertools.permutations(range(k), r)]
    else:
        lists = [tuple(range(k)), tuple(range(k))[::-1], tuple(range(1, k)) + (0,)]
    for i, p in enumerate(pars):
        want = closure([p.name], deps)
        got = [q.name for q in p.params]
        if sorted(set(got)) != sorted(want) or got[0] != p.name:
            raise engine.Violation("%s: parameters of %s are %s, expected %s" % (where, p.name, got, want))
    byname = {q.name: q for p in pars for q in p.params}
    counters["states"] += 1
    for il, order in enumerate(lists):
        lst = [pars[i] for i in order]
        if il % 3 == 2:  # hyperparameters listed too, as a model lists them
            lst = sorted({q for p in lst for q in p.params}, key=lambda q: q.name)
            if il % 2:
                lst = lst[::-1]
        names = closure([p.name for p in lst], deps)
        ans = ANSWERS[il % 2]
        with rng.controlled(uniforms=ans, normals=ans, limit=20) as f:
            vals = parameter.sample(lst if il or len(lst) > 1 else lst[0])
        counters["n"] += 1
        if sorted(vals) != sorted(names):
            raise engine.Violation("%s: sampling %s returns %s, expected %s" % (where, [p.name for p in lst], sorted(vals), sorted(names)))
        used = f.used_u + f.used_z
        nel = sum(ref[n].size or 1 for n in names)
        if len(used) != nel:
            raise engine.Violation("%s: sampling %s made %d draws for %d values" % (where, [p.name for p in lst], len(used), nel))
        units = []
        for n in names:
            if np.shape(vals[n]) != (() if ref[n].size is None else (ref[n].size,)):
                raise engine.Violation("%s: value of %s has shape %s" % (where, n, np.shape(vals[n])))
            for u in unit(ref[n], vals):
                pool = f.used_z if ref[n].typ == "Normal" else f.used_u
                m = [i for i, x in enumerate(pool) if abs(x - u) < 1e-7]
                if not m:
                    raise engine.Violation(
                        "%s: sampling %s: %s was not drawn from its prior at the returned values %s (unit value %s, draws %s)"
                        % (where, [p.name for p in lst], n, vals, u, pool)
                    )
                units.append((ref[n].typ == "Normal", m[0]))
        if len(set(units)) != len(units):
            raise engine.Violation("%s: two values come from the same draw" % where)
        for n in names:
            want = logpdf(ref[n], vals)
            for got in (byname[n].get_logpdf(params=vals), np.log(byname[n].get_pdf(params=vals))):
                if abs(got - want) > 1e-9 * max(1, abs(want)):
                    raise engine.Violation("%s: log density of %s at %s is %r, expected %r" % (where, n, vals, got, want))
        counters["n"] += len(names)
        outs.add(engine.outcome_hash([sorted(names), len(units)]))
    # in a model
    from enterprise.signals import deterministic_signals, signal_base, white_signals

    @parameter.function
    def wave(toas, a0=0, a1=0, a2=0, a3=0):
        return 1e-9 * np.ones_like(toas) * (np.sum(a0) + np.sum(a1) + np.sum(a2) + np.sum(a3))

    sig = deterministic_signals.Deterministic(wave(**{"a%d" % i: p for i, p in enumerate(pars)}), name="w")
    if _PSR[0] is None:
        _PSR[0] = psrs.make_psr(psrs.spec(layout="A|B|A"))
    pta = signal_base.PTA([(white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + sig)(_PSR[0])])
    allnames = closure(["p%d" % i for i in range(k)], deps)
    if [p.name for p in pta.params] != sorted(allnames):
        raise engine.Violation("%s: model parameters %s, expected %s" % (where, [p.name for p in pta.params], sorted(allnames)))
    with rng.controlled(uniforms=ANSWERS[0], normals=ANSWERS[0], limit=20):
        vals = parameter.sample(pta.params)
    want = sum(logpdf(ref[n], vals) for n in allnames)
    vec = np.concatenate([np.atleast_1d(vals[n]) for n in sorted(allnames)])
    for x in (vals, vec):
        got = pta.get_lnprior(x)
        if abs(got - want) > 1e-9 * max(1, abs(want)):
            raise engine.Violation("%s: log prior of the model at %s is %r, expected %r" % (where, vals, got, want))
    outs.add(engine.outcome_hash(want))
    counters["n"] += 2


HARGS = {"Uniform": ("pmin", "pmax"), "Normal": ("mu", "sigma"), "LinearExp": ("pmin", "pmax"),
         "TruncNormal": ("mu", "sigma", "pmin", "pmax"), "InvGamma": ("alpha", "gamma")}


def run_hyper(desc, seed, counters, outs):
    """One parameter of each type whose arguments are numbers, hyperparameters or functions of hyperparameters."""
    from enterprise.signals import gp_priors, parameter

    kind, size, flags = desc["hyper"], desc["size"], desc["flags"]
    args = [float(a) for a in desc["args"]]

    @parameter.function
    def shift(x, by=0.0):
        return x + by

    given, hvals = {}, {}
    for kw, a, fl in zip(HARGS[kind], args, flags):
        if fl == 0:
            given[kw] = a
        elif fl == 1:
            given[kw] = parameter.Uniform(a - 0.01, a + 0.02)
            hvals["x_" + kw] = (a, 0.01, 0.03)
        else:
            given[kw] = shift(x=parameter.Uniform(a - 0.51, a - 0.48)("h_" + kw), by=0.5)
            hvals["h_" + kw] = (a - 0.5, 0.01, 0.03)
    factory = gp_priors.InvGamma if kind == "InvGamma" else getattr(parameter, kind)
    par = factory(size=size, **given)("x")
    where = "%s(%s) size %s" % (kind, {k: v if isinstance(v, float) else "hyper" for k, v in given.items()}, size)
    if sorted({q.name for q in par.params}) != sorted(["x"] + list(hvals)) or par.params[0].name != "x":
        raise engine.Violation("%s: parameters %s, expected x and %s" % (where, [q.name for q in par.params], sorted(hvals)))
    counters["states"] += 1
    # two points of the hyperparameters, to see the density follow them
    for du in (0.0, 0.015):
        hv = {h: a + du for h, (a, _, _) in hvals.items()}
        now = [a + (du if fl else 0.0) for a, fl in zip(args, flags)]
        d = c10.Dist(kind, now)
        # points exactly on a computed bound are a matter of rounding
        g = [y for y in d.grid() if kind not in ("Uniform", "LinearExp") or min(abs(y - now[0]), abs(y - now[1])) > 1e-9]
        vals = [(v,) for v in g] if size in (None, 1) else [tuple(g[(i + 3 * j) % len(g)] for j in range(size)) for i in range(len(g))]
        vals += [tuple(g[3 + (i + j) % 3] for j in range(size or 1)) for i in range(3)]
        for v in vals:
            x = v[0] if size is None else np.array(v)
            with np.errstate(all="ignore"):
                want = float(np.sum([np.log(d.pdf(y)) for y in v]))
                got = [par.get_logpdf(params=dict(hv, x=x)), np.log(par.get_pdf(params=dict(hv, x=x)))]
            if not all(np.ndim(a) == 0 and c10.same(float(a), want, 1e-8) for a in got):
                raise engine.Violation("%s at %s, %s: log density %s, expected %s" % (where, v, hv, got, want))
            counters["n"] += 2
        outs.add(engine.outcome_hash([where, want]))
    # samples: the hyperparameters answer 1/3 of their ranges or follow the marks
    nel = size or 1
    if kind == "InvGamma":
        np.random.seed(seed + 99)
        for _ in range(5):
            got = parameter.sample([par])
            if sorted(got) != sorted(["x"] + list(hvals)) or np.shape(got["x"]) != (() if size is None else (size,)) or np.min(got["x"]) <= 0:
                raise engine.Violation("%s: sample %s" % (where, got))
            counters["n"] += 1
        return
    norm = kind in ("Normal", "TruncNormal")
    for first in itertools.product([-7.3, 7.1, 0.2] if kind == "TruncNormal" else [0.2, 0.7], repeat=min(nel, 2)):
        feed = [z + 1e-4 * i for i, z in enumerate(first)]
        feed += [0.15 + 1e-3 * i for i in range(30)]
        us = [0.30 + 0.011 * i for i in range(30)]
        with rng.controlled(uniforms=us, normals=feed, limit=25) as f:
            got = parameter.sample([par])
        counters["n"] += 1
        if sorted(got) != sorted(["x"] + list(hvals)):
            raise engine.Violation("%s: sampling returns %s" % (where, sorted(got)))
        pool, taken = list(f.used_u), []
        for h, (a, lo, w) in hvals.items():
            m = [i for i, u in enumerate(pool) if abs(a - lo + w * u - got[h]) < 1e-9 and i not in taken]
            if not m:
                raise engine.Violation("%s: %s=%r was not drawn from its prior (draws %s)" % (where, h, got[h], pool))
            taken.append(m[0])
        now = [got["x_" + kw] if fl == 1 else got["h_" + kw] + 0.5 if fl else a for kw, a, fl in zip(HARGS[kind], args, flags)]
        d = c10.Dist(kind, now)
        xs = np.atleast_1d(got["x"])
        if np.shape(got["x"]) != (() if size is None else (size,)) or not all(d.inside(y) for y in xs):
            raise engine.Violation("%s: sample %s outside of the support" % (where, got))
        pool, seen = (f.used_z if norm else f.used_u), [] if norm else list(taken)
        for y in xs:
            m = [i for i, u in enumerate(pool) if abs(u - d.unit(y)) < 1e-7 and i not in seen]
            if not m:
                raise engine.Violation("%s: %s was not drawn from the prior at %s (draws %s)" % (where, y, got, pool))
            seen.append(m[0])
    outs.add(engine.outcome_hash([where, len(f.used_z)]))


_PSR = [None]


def run_case(desc, seed):
    counters, outs = {"states": 0, "n": 0}, set()
    if "hypers" in desc:
        for h in desc["hypers"]:
            run_hyper(h, seed, counters, outs)
    for g in desc.get("graphs", []):
        run_graph(g, desc["rot"], desc["orders"], counters, outs)
    n = counters["n"]
    return {"states": counters["states"], "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(outs)[:60],
            "sample": desc["graphs"][0] if "graphs" in desc else desc["hypers"][0]}
