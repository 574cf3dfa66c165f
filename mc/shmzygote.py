"""Runs schedules of real processes that share a pulsar (driven by mc/props/c16.py).

Reads one JSON request from stdin: {repo, seed, mode, variant, schedules, keep}; prints one JSON result.
Every role of a schedule is a process forked from this (pristine) one; a step is one command sent to one process,
and the next step starts only when the previous one has answered (or has ended, resource tracker included).
"""

import gc
import json
import os
import pickle
import signal
import sys
import tempfile
import time

import numpy as np


def tracker_pid():
    from multiprocessing import resource_tracker

    return getattr(resource_tracker._resource_tracker, "_pid", None)


def gone(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] in ("Z", "X")
    except OSError:
        return True


class Proc(object):
    def __init__(self, handler):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            # only our own ends: a sibling that kept them would hide the end of this process
            for p in Proc.live:
                for fd in (p.w, p.r.fileno()):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            with os.fdopen(r1) as r, os.fdopen(w2, "w") as w:
                handler(r, w)
            # end without unwinding the frames inherited from the scheduler
            import atexit

            gc.collect()
            atexit._run_exitfuncs()
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, os.fdopen(r2)
        self.tracker = None
        self.alive = True
        Proc.live.append(self)

    def call(self, cmd):
        os.write(self.w, (json.dumps(cmd) + "\n").encode())
        line = self.r.readline()
        if not line:
            return {"died": True}
        return json.loads(line)

    def end(self, how):
        """Let the process end; wait until it and its resource tracker are gone."""
        if not self.alive:
            return
        rep = self.call({"op": "tracker"})
        pid = rep.get("pid")
        if how == "kill":
            os.kill(self.pid, signal.SIGKILL)
        else:
            try:
                os.write(self.w, b'{"op": "exit"}\n')
            except OSError:
                pass
        os.waitpid(self.pid, 0)
        os.close(self.w)
        self.r.close()
        self.alive = False
        Proc.live.remove(self)
        if pid and not rep.get("shared"):
            t0 = time.time()
            while not gone(pid) and time.time() - t0 < 20:
                time.sleep(0.002)


Proc.live = []


def observe(psr):
    ret = {}
    for a in ("toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "pos_t", "planetssb", "sunssb", "backend_flags", "telescope"):
        if a in ("planetssb", "sunssb") and getattr(psr, "_" + a, 1) is None:
            continue
        ret[a] = np.array(getattr(psr, a))
    for k, v in psr.flags.items():
        ret["flag " + k] = np.array(v)
    return ret


def differs(got, want):
    if sorted(got) != sorted(want):
        return "arrays %s, expected %s" % (sorted(got), sorted(want))
    for k in want:
        if got[k].shape != want[k].shape or got[k].dtype != want[k].dtype or not np.array_equal(got[k], want[k]):
            return "%s is %s, expected %s" % (k, got[k].ravel()[:4].tolist(), want[k].ravel()[:4].tolist())
    return None


def handler_for(build, ref, path, prefix, shared):
    def handler(r, w):
        psr = None
        for line in r:
            cmd = json.loads(line)
            op, rep = cmd["op"], {}
            try:
                if op == "exit":
                    return
                if op == "tracker":
                    rep = {"pid": tracker_pid(), "shared": shared}
                elif op == "deflate":
                    from multiprocessing import shared_memory

                    count = [0]

                    def name():
                        count[0] += 1
                        return "/%s_%d" % (prefix, count[0])

                    shared_memory._make_filename = name
                    psr = build()
                    psr.deflate()
                    psr.deflate()
                    with open(path, "wb") as f:
                        pickle.dump(psr, f)
                elif op == "own":  # the creator uses its own pulsar
                    psr.inflate()
                    rep = {"diff": differs(observe(psr), ref)}
                elif op == "inflate":
                    with open(path, "rb") as f:
                        psr = pickle.load(f)
                    psr.inflate()
                    psr.inflate()
                    psr.deflate()
                    rep = {"diff": differs(observe(psr), ref)}
                elif op == "read":
                    rep = {"diff": differs(observe(psr), ref)}
                elif op == "destroy":
                    with open(path, "rb") as f:
                        psr = pickle.load(f)
                    psr.destroy()
                    psr.destroy()
                    psr.inflate()
            except Exception as e:
                rep = {"error": "%s: %s" % (type(e).__name__, e)}
            w.write(json.dumps(rep) + "\n")
            w.flush()

    return handler


def segments(prefix):
    return sorted(x for x in os.listdir("/dev/shm") if x.startswith(prefix))


def run_schedule(sched, how, build, ref, tmp, prefix, shared):
    """sched: list of "C.deflate", "C.exit", "U1.inflate", ... Returns a complaint or None."""
    path = os.path.join(tmp, prefix + ".pkl")
    roles = {}
    inflated, destroyed, expected, done = set(), False, 0, []
    try:
        for step in sched:
            role, op = step.split(".")
            if role not in roles:
                roles[role] = Proc(handler_for(build, ref, path, prefix, shared))
            p = roles[role]
            done.append(step)
            if op == "exit":
                p.end(how)
                inflated.discard(role)
            else:
                rep = p.call({"op": op})
                if rep.get("died"):
                    return done, "the process died"
                if op in ("inflate", "own") and destroyed:
                    if "error" not in rep:
                        return done, "destroyed arrays could be inflated"
                elif rep.get("error") or rep.get("diff"):
                    return done, rep.get("error") or rep["diff"]
                if op in ("inflate", "own") and not destroyed:
                    inflated.add(role)
                if op == "deflate":
                    expected = len(segments(prefix))
                if op == "destroy":
                    destroyed = True
            for u in sorted(inflated):
                rep = roles[u].call({"op": "read"})
                if rep.get("died") or rep.get("error") or rep.get("diff"):
                    return done, "%s cannot read its arrays: %s" % (u, rep)
            left = segments(prefix)
            if destroyed and left:
                return done, "shared memory is left after destroying: %s" % left
            if not destroyed and len(left) != expected:
                return done, "%d of %d shared arrays are left" % (len(left), expected)
        return done, None
    finally:
        for p in roles.values():
            p.end("kill")
        for x in segments(prefix):
            os.unlink("/dev/shm/" + x)


def sequences(build, ref, seqs, prefix):
    """All call sequences on one pulsar in one process (each in a process of its own, which may crash)."""

    def handler(r, w):
        for line in r:
            cmd = json.loads(line)
            if cmd["op"] == "exit":
                return
            if cmd["op"] == "tracker":
                w.write(json.dumps({"pid": tracker_pid(), "shared": False}) + "\n")
                w.flush()
                continue
            rep = {}
            try:
                rep["error"] = one_sequence(build, ref, cmd["seq"], prefix)
            except Exception as e:
                rep["error"] = "%s: %s" % (type(e).__name__, e)
            w.write(json.dumps(rep) + "\n")
            w.flush()

    p = Proc(handler)
    try:
        for s in seqs:
            rep = p.call({"op": "seq", "seq": s})
            if rep.get("died"):
                return s, "the process died"
            if rep["error"]:
                return s, rep["error"]
    finally:
        p.end("kill")
        for x in segments(prefix):
            os.unlink("/dev/shm/" + x)
    return None


def one_sequence(build, ref, seq, prefix):
    from multiprocessing import shared_memory

    count = [0]

    def name():
        count[0] += 1
        return "/%s_%d" % (prefix, count[0])

    shared_memory._make_filename = name
    psr, state, views = build(), "pristine", []
    nshm = 0
    for op in seq:
        if op == "pickle":
            psr = pickle.loads(pickle.dumps(psr))
            if state == "inflated":
                state = "copy"
        else:
            getattr(psr, op)()
            if op == "deflate" and state == "pristine":
                state, nshm = "deflated", len(segments(prefix))
                if not nshm:
                    return "no shared memory was used"
            elif op == "inflate" and state == "deflated":
                state = "inflated"
            elif op == "destroy" and state == "deflated":
                state, nshm = "destroyed", 0
        if state in ("pristine", "inflated", "copy"):
            d = differs(observe(psr), ref)
            if d:
                return d
            views.append([psr.Mmat[:], psr.planetssb[:], [psr.flags[k] for k in sorted(psr.flags)]])
        if state == "destroyed" and segments(prefix):
            return "shared memory is left after destroying"
        if state == "deflated" and len(segments(prefix)) != nshm:
            return "shared memory is gone"
    # views of the arrays outlive the pulsar
    psr = None
    gc.collect()
    for M, P, F in views:
        if not np.array_equal(M, ref["Mmat"]) or not np.array_equal(P, ref["planetssb"]):
            return "a view of an array changed when its pulsar was deleted"
        for k, v in zip(sorted(x[5:] for x in ref if x.startswith("flag ")), F):
            if not np.array_equal(v, ref["flag " + k]):
                return "a view of a flag changed when its pulsar was deleted"
    views = None
    for x in segments(prefix):
        os.unlink("/dev/shm/" + x)
    return None


def main():
    req = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    os.environ["VERIF_REPO"] = req["repo"]
    from mc import engine, psrs

    engine.setup_process()
    sys.stderr = open(os.devnull, "w")
    os.dup2(sys.stderr.fileno(), 2)

    v = req["variant"]

    def build():
        sp = psrs.spec(layout="AB|A|BA|B", order=v.get("order", "mix"), sort=v.get("sort", True), tm=v.get("tm", ["off", "F0", "F1"]))
        raw = psrs.seeded_raw(sp, req["seed"])
        if v.get("fortran"):  # e.g. the transpose of a row-major table
            raw["designmatrix"] = np.asfortranarray(raw["designmatrix"])
        psr = psrs.from_raw(raw, sort=v.get("sort", True), planets=v.get("planets", True))
        if v.get("empty"):
            psr.filter_data(1e6, None)
        return psr

    psr = build()
    ref = observe(psr)
    del psr
    shared = req["mode"] == "family"
    if shared:
        from multiprocessing import resource_tracker

        resource_tracker.ensure_running()
    tmp = tempfile.mkdtemp(prefix="verif_c16_")
    prefix = "vmc%d" % os.getpid()
    out = {"done": 0, "steps": 0}
    try:
        if "sequences" in req:
            bad = sequences(build, ref, req["sequences"], prefix)
            out["done"] = len(req["sequences"])
            out["steps"] = sum(len(s) for s in req["sequences"])
            if bad:
                out["bad"] = {"schedule": bad[0], "what": bad[1]}
        else:
            for i, s in enumerate(req["schedules"]):
                done, bad = run_schedule(s, req["how"], build, ref, tmp, "%sx%d" % (prefix, i), shared)
                out["done"] += 1
                out["steps"] += len(done)
                if bad:
                    out["bad"] = {"schedule": done, "what": bad}
                    break
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    print(json.dumps(out))
    sys.stdout.flush()


if __name__ == "__main__":
    main()
