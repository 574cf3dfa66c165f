"""Write DESIGN.md from DESIGN.in.md, the catalog, the property modules, seeded/*/meta.json and tools/seeded.txt:
/opt/venv/bin/python tools/design.py"""
import glob
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import catalog  # noqa: E402

# what is explored and against which oracle; why exhaustive enumeration reaches what the tests cannot
HOW = {
    "C01": (
        "State: a live PTA, identified by the history of calls it has served. Transitions: likelihood, get_TNT, get_TNr, get_rNr_logdet, get_ndiag, "
        "get_basis, get_phi, get_phiinv, get_delay, ... at one of several parameter points that agree in some cache keys and differ in others, and "
        "set_default_params with one of two settings of the constants. Every answer is compared to the one of a PTA built anew; every array handed out "
        "earlier is compared to the copy taken when it was returned. Families cover every caching signal class.",
        "A stale cache needs a particular history (A, B, A; constant changed between two equal calls; likelihood after basis)."),
    "C02": (
        "The model is a point of a product of thirteen axes (pulsar set, white noise, ECORR form, timing model, red, DM/chromatic, first and second common "
        "process, time-domain kernel, waveform, extra likelihood terms, pulsars without a basis, kind of parameters). Everything within two deviations of a base is built twice "
        "(sparse and dense likelihood class) and evaluated at two points through three inversion methods, dictionary and vector input; the oracle (`mc/models.py`) recomputes bases, "
        "spectra, masks, epochs, overlap functions and parameter names from their documented formulas and marginalizes densely by QR.",
        "Pairs of features interact (parametrized basis + combined columns + common process ...); the tests that pass here do not evaluate any composed likelihood."),
    "C03": (
        "All permutations x all binary bracketings of the sum of signals, all permutations of pulsars and all ways to add PTAs; each against the dense reference "
        "and against the first order.",
        "n! orders times Catalan(n) groupings are not sampled by tests."),
    "C04": (
        "All ways to cut up to 6 sorted TOAs into epochs, all set partitions of up to 5 unsorted ones, all backend assignments; for every ECORR method the noise object's "
        "solve (7 shapes, logdet or not, left factor or not) is compared with the dense inverse of diag + sum of outer products, twice on the same object.",
        "Epoch bookkeeping (slices, index lists, epochs of one TOA, no epoch at all) fails for particular layouts only."),
    "C05": (
        "Which of three pulsars carries which of up to two common processes (all pairs of subsets), nine kinds of process, per-pulsar processes that overlap in frequency or not. "
        "Oracle: T Phi T^T of the whole array built densely; Phi^-1 Phi = 1 and log|Phi| for the three inversion methods, twice per PTA.",
        "Index cliques and partitions depend on how bases coincide across pulsars and processes; wrong merges only show for certain layouts."),
    "C06": (
        "All ordered pairs, all triples of 19 process kinds (equal, nested, disjoint, permuted, duplicated, nearly equal columns, parametrized and constant-dependent bases, dense priors, "
        "indicator columns) x all combine flags. Oracle: the sum of the unshared processes, by covariance and by likelihood.",
        "Column sharing is a hash-based index computation with order-dependent results."),
    "C07": (
        "All assignments of labels/times/frequencies to a few TOAs for every shipped selection and its options, in sorted and unsorted delivery; oracle: list comprehension over records. Restricted "
        "signals: dense reference with the masks.",
        "Sub-string matches, half-open band edges, repeated use of one selection object and empty groups."),
    "C08": (
        "All gap sequences over a lattice around the time step in all input orders; oracle: greedy clustering by definition. The same lattices drive the ECORR signals.",
        "Boundary ties (gap exactly equal to the step), chains of close TOAs and input order."),
    "C09": (
        "All assignments of parameter kinds within two deviations in a model of eight signals; checks names, order, sizes, mapping, five forms of input, prior, unit cube, and three rounds of "
        "default parameters through three entry points, with the dense likelihood as oracle. Containers: all ways to put models together, look-ups, summary.",
        "Name collisions and vector offsets depend on the combination of kinds and names."),
    "C10": (
        "Argument grids x value grids; the numpy generator is replaced by the harness, which enumerates all answer sequences up to a length, so all branches of rejection samplers run. Oracle: closed forms "
        "(density integrates to one, sampler = inverse of the distribution function at the given answers, ppf = inverse).",
        "Out-of-support values, vector elements of which only some are rejected, boundaries."),
    "C11": (
        "All dependency graphs of 3-4 parameters x orders of the list; generator answers fixed by the harness; oracle: topological evaluation of the graph.",
        "Order-dependent double draws of shared hyperparameters."),
    "C12": (
        "All functions of up to 3 arguments, each argument from one of 19 sources, with recorded calls; oracle: a reference resolver of the documented precedence.",
        "Positions and precedence interact; every combination of sources is a different path."),
    "C13": (
        "The normal draws are replaced by 0 and every unit vector: the resulting affine map is the conditional mean and a square root of the covariance. Oracle: dense posterior. All models within "
        "two deviations, all interfaces, on one live object.",
        "Permutations of sparse factors and block offsets cancel in likelihoods and in averages."),
    "C14": (
        "All permutations and tie patterns of TOAs through the real Tempo2Pulsar/PintPulsar constructors (stub timing packages), then all sequences of filter_data/set_flags/re-sort; oracle: a list of records.",
        "Any array that is forgotten in a filter or sort is visible only for some orders."),
    "C15": ("All sequences of save/load operations over pulsars that vary in nine respects; oracle: the original's public data and the likelihood of six models.",
            "Round trips of round trips, optional data, flag names with separators."),
    "C16": ("Real processes are stepped through pipes, one action at a time, in all interleavings; exits are normal or by SIGKILL. Oracle: the array's content while not destroyed, /dev/shm afterwards.",
            "Life time of shared memory depends on the order in which processes exit."),
    "C17": ("Full product of nine forms of the timing model, eight noise models, eight GP contents; residuals shifted along every column; excluded and zero columns. Oracles: dense marginalization and metamorphic equality.",
            "Each pair of form and noise class is a separate code path (solve of the wrapped noise matrix)."),
    "C18": ("All placements of up to three DMX intervals over a few TOAs, backend assignments and parameter kinds; oracle: joint dense Gaussian of TOAs and DM measurements.",
            "Intervals without TOAs, with several backends, TOAs outside of all intervals."),
    "C19": ("The likelihood times prior is a quadratic form in the coefficients, identified exactly from finitely many probes and then integrated in closed form; oracle: the marginalized model.",
            "The equality is an integral over all coefficients: no finite set of comparisons of single values shows it."),
    "C20": ("All subsets of ephemeris perturbations, orbit models, averaging; all models of one or two waveforms x selections x parameter kinds; oracle: independent rotation/mass/orbit arithmetic and masked waveforms.",
            "Subsets of optional perturbations interact through cached delays and shared arrays."),
    "C21": ("Closed forms on all increasing lists out of irregular frequencies and on parameter grids; single-element changes show which bins depend on what.",
            "Bin widths and piecewise branches (free spectrum, breaks, per-bin parameters) fail at particular bins."),
    "C22": ("Full product of basis options, all answers of the random phases over an alphabet, all TOA subsets of a lattice for the interpolation basis; oracle: closed forms.",
            "Combinations of options (limits with logarithmic spacing, explicit modes with span ...)."),
    "C23": ("All pairs and triples out of 72 directions including degenerate ones; unit skies of all pixels and multipoles; oracle: closed forms and a direct pixel sum.",
            "Antipodal, identical and nearly identical positions; single multipoles."),
    "C24": ("All interleavings of life cycles of models that share classes, parameters, waveforms, selections and pulsars; oracle: the same life cycle alone in a fresh process state.",
            "Class-level state shows only when two models are alive in a certain order."),
    "C25": ("Every call of every user function fails (each exception class, pairs of failures), or a parameter has an unusable value, at every step of a history of ten operations; after each failure all "
            "answers are compared with a model that never failed.",
            "Half-updated caches after an exception."),
    "C26": ("Lattices of directions, angles, masses, eccentricities, harmonics; oracles: tensor projection, Bessel sums, derivative identities, quadrupole radiation of a Kepler orbit, integration of the rates.",
            "Sign and convention errors at special geometries."),
    "C27": ("All ways to write paths, all argument positions, every step of loading failing in turn, all small tim files with INCLUDEs, all small timing solutions; oracle: stub timing packages that read what they are given, the working directory.",
            "Error paths and path forms; no timing package is installed here, so no test loads anything."),
    "C28": ("All sets of optional arguments left out (and all positional prefixes) of every public function and factory, in contexts where they matter; oracle: the call with every default of the public signatures written out in the check.",
            "A default is one of many omitted arguments; tests use one combination each and never the written-out one."),
}


def fill(s):
    return "\n".join(textwrap.wrap(s, 118))


def properties():
    ret = ["## Properties", ""]
    for p in catalog.P:
        m = importlib.import_module("mc.props." + p["id"].lower())
        how, why = HOW[p["id"]]
        ret += ["### %s: %s" % (p["id"], p["title"]), "", fill(p["statement"]), ""]
        ret += [fill("*Decided by* " + p["technique"] + ". " + how), ""]
        ret += [fill("*Why the tests cannot settle it:* " + why), ""]
        ret += [fill("*Bounds (quick):* " + m.BOUNDS["quick"] + "."), "", fill("*Bounds (thorough):* " + m.BOUNDS["thorough"] + "."), ""]
        ret += [fill("*Assumptions:* " + "; ".join(m.ASSUMPTIONS) + "."), ""]
    return "\n".join(ret)


def seeded():
    """tools/seeded.txt: one line per planted change: <id> <checks that report it>"""
    caught = {}
    for line in open(os.path.join(HERE, "tools", "seeded.txt")):
        w = line.split()
        if w:
            caught[w[0]] = w[1:]
    ret = ["| change | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        ret.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], " ".join(caught.get(i, ["?"]))))
    return "\n".join(ret)


def cost():
    ret = ["| property | quick (s, 8 cores) | cases | states | transitions/evaluations |", "|---|---|---|---|---|"]
    for line in open(os.path.join(HERE, "tools", "cost.txt")):
        ret.append("| " + " | ".join(line.split()) + " |")
    return "\n".join(ret)


def main():
    s = open(os.path.join(HERE, "DESIGN.in.md")).read()
    for k, f in (("PROPERTIES", properties), ("SEEDED", seeded), ("COST", cost)):
        s = s.replace("@@%s@@" % k, f())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(s)


if __name__ == "__main__":
    main()
