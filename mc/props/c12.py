"""C12: model functions receive exactly the documented arguments."""

import itertools

import numpy as np

from mc import engine, psrs

LEVEL = "model_checking"
ASSUMPTIONS = ["arguments of nested functions are named differently from the outer arguments; pulsars with 4 TOAs"]
BOUNDS = {
    "quick": "all functions of up to 3 arguments, each from 23 sources (parameter class/instance, 5 kinds of constants, plain value, nested "
    "functions to depth 2 with parameters or constants, per-TOA/scalar/vector/dictionary/method pulsar attributes, plain values for pulsar attributes, default, "
    "explicit arguments replacing each), non-zero and zero values, x mask or not x with and without function name; every pair through a real signal",
    "thorough": "up to 4 arguments (12 sources)",
}

ATTR = ["toas", "name", "pos", "flags", "planetssb", "Mmat", "freqs"]
#        source -> (is the argument named after a pulsar attribute?)
SOURCES = ["pc", "pi", "cc", "ci", "cl", "co", "v", "nf", "ni", "n2", "nc", "at", "as", "av", "ad", "va", "pa", "d", "ex", "ea", "no", "cn", "en"]
SMALL = ["pc", "pi", "cc", "cl", "v", "nf", "at", "as", "va", "d", "ex", "n2"]


def cases(tier, seed):
    ret = []
    for k in (1, 2):
        combos = list(itertools.product(SOURCES, repeat=k))
        ret += [{"combos": combos[i : i + 100], "named": nm} for i in range(0, len(combos), 100) for nm in (0, 1)]
    combos = list(itertools.product(SOURCES, repeat=3))
    ret += [{"combos": combos[i : i + 200], "named": (i // 200) % 2} for i in range(0, len(combos), 200)]
    if tier == "thorough":
        combos = list(itertools.product(SMALL, repeat=4))
        ret += [{"combos": combos[i : i + 400], "named": (i // 400) % 2} for i in range(0, len(combos), 400)]
    ret.append({"direct": 1})
    combos = list(itertools.product([s for s in SOURCES if s not in ("ex", "ea", "en")], repeat=2))
    ret += [{"signals": combos[i : i + 40]} for i in range(0, len(combos), 40)]
    return ret


_PSR = {}


def pulsar():
    if not _PSR:
        _PSR[0] = psrs.make_psr(psrs.spec(layout="A|B|A|BA"), 1)
    return _PSR[0]


def define(names, log, first=0, source="f"):
    """A function with these arguments (defaults from number `first` on) that records its call."""
    args = ", ".join(n if i < first else "%s='default:%s'" % (n, n) for i, n in enumerate(names))
    ns = {"log": log}
    exec("def %s(%s):\n    log.append(dict(%s))\n    return log[-1]" % (source, args, ", ".join("%s=%s" % (n, n) for n in names)), ns)
    return ns[source]


class Built(object):
    pass


# values of the parameters (a zero is a value like any other), value of the explicit arguments
VALUES = [(lambda i: 10.0 + i, lambda i: -10.0 - i), (lambda i: 0.0, lambda i: -1.0 - i), (lambda i: 10.0 + i, lambda i: 0.0)]


def setup(combo, prefix, fname, mask, psr, values=0):
    """Returns the keywords given to Function, the expected arguments, parameters, dictionary and explicit arguments."""
    from enterprise.signals import parameter

    b = Built()
    b.names, b.given, b.expect, b.params, b.dict, b.explicit, b.free = [], {}, {}, [], {}, {}, []
    b.late, b.first = {}, 0
    attrs = iter([a for a in ("toas", "freqs", "planetssb", "Mmat")])
    scal = iter(["name", "theta", "phi", "pdist"])
    pre = "_".join([x for x in (prefix, fname) if x])
    for i, s in enumerate(combo):
        n = "xyzw"[i]
        if s in ("at", "va", "pa", "ea"):
            n = next(attrs)
        elif s == "as":
            n = next(scal)
        elif s == "av":
            n = "pos" if "pos" not in b.names else "raj" if "raj" not in b.names else "decj" if "decj" not in b.names else n
        elif s == "ad":
            n = "flags" if "flags" not in b.names else n
        if n in b.names:
            return None
        b.names.append(n)
        val = VALUES[values][0](i)
        full = "%s_%s" % (pre, n)
        if s in ("pc", "ex", "pa", "en"):
            b.given[n] = parameter.Uniform(0, 100)
            b.dict[full] = val
            b.free.append(full)
            b.expect[n] = val
            if s == "en":  # an explicit None is a value like any other
                b.explicit[n] = b.expect[n] = None
            if s == "ex":
                b.explicit[n] = b.expect[n] = VALUES[values][1](i)
        elif s == "pi":
            b.given[n] = parameter.Uniform(0, 100)("inst%d" % i)
            b.dict["inst%d" % i] = val
            b.free.append("inst%d" % i)
            b.expect[n] = val
        elif s == "cc":
            b.given[n] = parameter.Constant(val)
            b.expect[n] = val
        elif s == "ci":
            b.given[n] = parameter.Constant(val)("const%d" % i)
            b.expect[n] = val
        elif s == "cl":
            b.given[n] = parameter.Constant()
            b.late[full] = val
            b.expect[n] = val
        elif s == "cn":  # a constant that nobody sets
            b.given[n] = parameter.Constant()
            b.expect[n] = None
        elif s == "co":  # a constant that the dictionary names
            b.given[n] = parameter.Constant(1.0)
            b.dict[full] = val
            b.expect[n] = val
        elif s in ("v", "va"):
            b.given[n] = val
            b.expect[n] = val
        elif s in ("nf", "ni", "n2", "nc", "no"):
            inner = "q%d" % i

            def add(k, **kw):
                ns = {}
                exec("def nested(%s, name):\n    return ('nested', %s, name)" % (k, k), ns)
                return parameter.Function(ns["nested"], **kw)

            if s == "nf":
                b.given[n] = add(inner, **{inner: parameter.Uniform(0, 100)})
                leaf = "%s_%s_%s" % (pre, n, inner)
                b.expect[n] = ("nested", val, psr.name)
            elif s == "nc":
                b.given[n] = add(inner, **{inner: parameter.Constant(val)})
                leaf = None
                b.expect[n] = ("nested", val, psr.name)
            elif s == "no":  # a constant of a nested function, named in the dictionary
                b.given[n] = add(inner, **{inner: parameter.Constant(-3.0)})
                leaf = None
                b.dict["%s_%s_%s" % (pre, n, inner)] = val
                b.expect[n] = ("nested", val, psr.name)
            elif s == "ni":
                b.given[n] = add(inner, **{inner: parameter.Uniform(0, 100)})("given%d" % i, psr=psr)
                leaf = "given%d_%s" % (i, inner)
                b.expect[n] = ("nested", val, psr.name)
            else:
                deep = add("deep%d" % i, **{"deep%d" % i: parameter.Uniform(0, 100)})
                b.given[n] = add(inner, **{inner: deep})
                leaf = "%s_%s_%s_deep%d" % (pre, n, inner, i)
                b.expect[n] = ("nested", ("nested", val, psr.name), psr.name)
            if leaf:
                b.dict[leaf] = val
                b.free.append(leaf)
        elif s in ("at", "as", "av", "ad"):
            a = getattr(psr, n) if hasattr(psr, n) else "default:%s" % n
            if isinstance(a, np.ndarray) and mask is not None and len(a) == len(mask):
                a = a[mask]
            b.expect[n] = a
        elif s == "ea":  # explicit argument instead of a pulsar attribute
            b.explicit[n] = b.expect[n] = VALUES[values][1](i)
        elif s == "d":
            b.expect[n] = "default:%s" % n
    # arguments without default values, up to the last one that needs its default
    b.first = 0 if "d" in combo or any(x not in dir(psr) and s in ("av", "ad") for x, s in zip(b.names, combo)) else len(combo)
    return b


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def check_call(where, call, expect):
    if sorted(call) != sorted(expect):
        raise engine.Violation("%s: arguments %s" % (where, sorted(call)))
    for k in expect:
        if not equal(call[k], expect[k]):
            raise engine.Violation("%s: argument %s is %r, expected %r" % (where, k, call[k], expect[k]))


def run_combo(combo, named, outs):
    n = run_values(combo, named, outs, 0) + run_values(combo, named, outs, 1)
    return n + (run_values(combo, named, outs, 2) if "ex" in combo or "ea" in combo else 0)


def run_values(combo, named, outs, values):
    from enterprise.signals import parameter

    psr = pulsar()
    n = 0
    # every second TOA: a mask that is not a slice
    half = np.arange(len(psr.toas)) % 2 == 0
    for mask in (None, half):
        fname = "fn" if named else ""
        b = setup(combo, "J_sig", fname, mask, psr, values)
        if b is None:
            return 0
        log = []
        f = define(b.names, log, b.first)
        cls = parameter.Function(f, name=fname, **b.given)
        inst = cls("J_sig", psr=psr)
        where = "function of %s from %s%s%s" % (b.names, list(combo), " with mask" if mask is not None else "",
                                                ["", ", values 0", ", explicit 0"][values])
        got = sorted(p.name for p in inst.params)
        if got != sorted(b.free):
            raise engine.Violation("%s: parameters %s, expected %s" % (where, got, sorted(b.free)))
        # constants set later go through a signal in reality; here the dictionary names them
        params = dict(b.dict, **b.late)
        params["unrelated"] = 5
        kw = dict(b.explicit)
        if mask is not None:
            kw["mask"] = mask
        for rep in range(2):
            del log[:]
            before = sorted(params.items(), key=lambda x: x[0])
            inst(params=params, **dict(kw))
            if len(log) != 1:
                raise engine.Violation("%s: %d calls" % (where, len(log)))
            check_call(where, log[0], b.expect)
            if sorted(params.items(), key=lambda x: x[0]) != before:
                raise engine.Violation("%s: the dictionary was modified" % where)
            n += 1
        # explicit positional arguments come first
        if combo[0] in ("at", "d", "pc", "v", "va"):
            del log[:]
            inst("first", params=params, **{k: v for k, v in kw.items() if k != b.names[0]}) if combo[0] in ("at", "d") else None
            if log:
                check_call(where + ", first argument given", log[0], dict(b.expect, **{b.names[0]: "first"}))
                n += 1
        # a parameter missing from the dictionary: the default applies
        if combo[0] == "pc" and b.first == 0:
            del log[:]
            inst(params={k: v for k, v in params.items() if k != b.free[0]}, **dict(kw))
            check_call(where + ", no value for the first", log[0], dict(b.expect, **{b.names[0]: "default:%s" % b.names[0]}))
            n += 1
        outs.add("/".join(combo))
    return n


def run_signals(combo, seed, outs):
    """The same function as the waveform of a signal with a selection."""
    return signal_values(combo, seed, outs, 0) + signal_values(combo, seed, outs, 1)


def signal_values(combo, seed, outs, values):
    from enterprise.signals import deterministic_signals, parameter, signal_base, white_signals
    from enterprise.signals import selections
    from enterprise.signals.selections import Selection

    psr = pulsar()
    labels = sorted(set(psr.backend_flags))
    psrlab = {l: psr.backend_flags == l for l in labels}
    bs = {l: setup(combo, "%s_sig_%s" % (psr.name, l), "", psrlab[l], psr, values) for l in labels}
    if any(b is None for b in bs.values()):
        return 0
    b0 = bs[labels[0]]
    calls = []
    rec = define(b0.names, calls, b0.first)
    args = ", ".join(n if i < b0.first else "%s='default:%s'" % (n, n) for i, n in enumerate(b0.names))
    ns = {"rec": rec}
    exec("def wave(%s):\n    rec(%s)\n    return 1e-6" % (args, ", ".join("%s=%s" % (n, n) for n in b0.names)), ns)
    # one set of keywords for all labels: parameter classes are named per label
    sig = deterministic_signals.Deterministic(
        parameter.Function(ns["wave"], **b0.given), selection=Selection(selections.by_backend), name="sig"
    )
    pta = signal_base.PTA([(white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + sig)(psr)])
    free = sorted(set(sum([b.free for b in bs.values()], [])))
    where = "signal function of %s from %s" % (b0.names, list(combo))
    got = [p.name for p in pta.params]
    if got != free:
        raise engine.Violation("%s: parameters %s, expected %s" % (where, got, free))
    late, dic = {}, {}
    for i, l in enumerate(labels):
        late.update({k: v + 0.1 * i for k, v in bs[l].late.items()})
        dic.update({k: v + 0.1 * i for k, v in bs[l].dict.items() if k in bs[l].free and k.startswith(psr.name)})
        dic.update({k: v for k, v in bs[l].dict.items() if k in bs[l].free and not k.startswith(psr.name)})
    pta.set_default_params(late)
    del calls[:]
    pta.get_delay(dic)
    if len(calls) != len(labels):
        raise engine.Violation("%s: %d calls for %d labels" % (where, len(calls), len(labels)))
    for i, l in enumerate(labels):
        exp = {}
        for nme, s in zip(bs[l].names, combo):
            e = bs[l].expect[nme]
            if s in ("pc", "pa", "cl"):
                e = e + 0.1 * i
            elif s == "co":
                e = 1.0
            elif s == "no":
                e = ("nested", -3.0, e[2])
            elif s == "nf":
                e = ("nested", e[1] + 0.1 * i, e[2])
            elif s == "n2":
                e = ("nested", ("nested", e[1][1] + 0.1 * i, e[1][2]), e[2])
            exp[nme] = e
        if not any(all(equal(c[k], exp[k]) for k in exp) for c in calls):
            raise engine.Violation("%s: no call for %s with %s; calls: %s" % (where, l, exp, calls))
    outs.add("signal " + "/".join(combo))
    return 1


def run_direct(outs):
    """Decorated functions called directly."""
    from enterprise.signals import parameter

    n = 0
    for nreq in range(3):
        for npos in range(4):
            for kws in itertools.product([None, 1.0, "par", "pari", "con", "coni", "fun", "funi"], repeat=2):
                log = []
                names = ["a%d" % i for i in range(nreq)] + ["k0", "k1"]
                f = parameter.function(define(names, log, nreq))
                pos = [float(i) for i in range(min(npos, nreq))]
                kw = {}
                for i, k in enumerate(kws):
                    if k is not None:
                        kw["k%d" % i] = {
                            "par": parameter.Uniform(0, 1), "pari": parameter.Uniform(0, 1)("p"), "con": parameter.Constant(2.0),
                            "coni": parameter.Constant(2.0)("c"), "fun": parameter.function(lambda zz: zz)(),
                            "funi": parameter.function(lambda zz: zz)()("f"),
                        }.get(k, k)
                out = f(*pos, **kw)
                called = len(pos) == nreq and not any(isinstance(k, str) for k in kws)
                isf = isinstance(out, type) and issubclass(out, parameter.FunctionBase)
                if called != bool(log) or isf == called:
                    raise engine.Violation("decorated function of %d+2 arguments called with %d and %s: %s" % (nreq, len(pos), kws, out))
                if called:
                    exp = {"a%d" % i: float(i) for i in range(nreq)}
                    exp.update({"k%d" % i: ("default:k%d" % i if k is None else k) for i, k in enumerate(kws)})
                    check_call("direct call", log[0], exp)
                n += 1
    outs.add("direct")
    return n


def run_case(desc, seed):
    outs = set()
    if "direct" in desc:
        n = run_direct(outs)
        return {"states": n, "transitions": n, "evaluations": n, "traces": n, "outcomes": ["direct"], "sample": "direct calls"}
    key = "signals" if "signals" in desc else "combos"
    n = 0
    for c in desc[key]:
        n += run_signals(tuple(c), seed, outs) if key == "signals" else run_combo(tuple(c), desc["named"], outs)
    return {"states": len(outs), "transitions": n, "evaluations": n, "traces": n, "outcomes": sorted(outs), "sample": desc[key][0]}
