"""C16: shared pulsar arrays live until they are destroyed, in every interleaving."""

import itertools
import json
import os
import subprocess
import sys

from mc import engine

LEVEL = "model_checking"
ASSUMPTIONS = [
    "steps are atomic: the next process acts when the previous one has answered (deflate, inflate and destroy are not interleaved internally)",
    "POSIX shared memory as on this Linux system; processes end normally or by SIGKILL",
]
BOUNDS = {
    "quick": "all interleavings (up to swapping the two users) of creator exit, two users (inflate, exit) and a destroyer (destroy, exit) after "
    "deflate: 315 schedules x {separate processes ending normally, killed; processes with one resource tracker}; all call sequences up to "
    "depth 4 in one process over {deflate, inflate, destroy, pickle} x 5 pulsars",
    "thorough": "also the creator using its own arrays (2520 schedules) and three users (2835), sequences up to depth 6",
}


def interleavings(procs):
    """All merges of the given step lists."""
    procs = [p for p in procs if p]
    if not procs:
        yield []
        return
    for i, p in enumerate(procs):
        for rest in interleavings(procs[:i] + [p[1:]] + procs[i + 1 :]):
            yield [p[0]] + rest


def schedules(users, own):
    c = ["C.own", "C.exit"] if own else ["C.exit"]
    lists = [c] + [["U%d.inflate" % u, "U%d.exit" % u] for u in range(users)] + [["D.destroy", "D.exit"]]
    for s in interleavings(lists):
        order = [x for x in s if x.endswith(".inflate")]
        if order == sorted(order):  # users are interchangeable
            yield ["C.deflate"] + s


VARIANTS = [{}, {"sort": False, "order": "rev"}, {"planets": False}, {"tm": ["off"]}, {"empty": 1}, {"fortran": 1}]


def cases(tier, seed):
    ret = []
    depth = 4 if tier == "quick" else 6
    for v in VARIANTS:
        if v.get("planets", True):
            ret.append({"sequences": depth, "variant": v})
    sets = [(2, 0, 13)] if tier == "quick" else [(2, 0, 13), (2, 1, 60), (3, 0, 60)]
    for users, own, parts in sets:
        for how, mode in (("normal", "separate"), ("kill", "separate"), ("normal", "family")):
            for k in range(parts):
                ret.append({"users": users, "own": own, "part": [k, parts], "how": how, "mode": mode})
    for v in VARIANTS[1:]:
        ret.append({"users": 1, "own": 1, "part": [0, 1], "how": "normal", "mode": "separate", "variant": v})
    return ret


def run_case(desc, seed):
    req = {"repo": engine.REPO, "seed": seed, "mode": desc.get("mode", "separate"), "how": desc.get("how"), "variant": desc.get("variant", {})}
    if "sequences" in desc:
        req["sequences"] = [
            list(s) for d in range(1, desc["sequences"] + 1) for s in itertools.product(["deflate", "inflate", "destroy", "pickle"], repeat=d)
        ]
        n = len(req["sequences"])
    else:
        k, parts = desc["part"]
        req["schedules"] = list(schedules(desc["users"], desc["own"]))[k::parts]
        n = len(req["schedules"])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(
        [sys.executable, os.path.join(here, "shmzygote.py")], input=json.dumps(req), capture_output=True, text=True, timeout=engine.CASE_TIMEOUT
    )
    if p.returncode != 0 or not p.stdout.strip():
        raise engine.Violation("the scheduler failed (exit code %s): %s" % (p.returncode, p.stderr[-1500:]))
    out = json.loads(p.stdout.strip().splitlines()[-1])
    if "bad" in out:
        raise engine.Violation("%s (%s; after %s)" % (out["bad"]["what"], {k: v for k, v in desc.items() if k not in ("part",)}, out["bad"]["schedule"]),
                               data=out["bad"])
    assert out["done"] == n
    return {"states": n, "transitions": out["steps"], "evaluations": n, "traces": n, "outcomes": [json.dumps(desc)]}
