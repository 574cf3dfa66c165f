"""Sensitivity runs: apply one source mutation to a scratch copy of /repo and run checks against it.

    python3 tools/mutants.py [-t] [-j N] [pattern]      (-t: also run the stable tests on the mutant)

No registered check uses this file. The mutants are lines of tools/mutants.txt, as Python tuples
    (name, "C01 C02", file, old, new)
where `old` occurs exactly once in the file and the checks are the ones expected to report it.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    with open(os.path.join(HERE, "tools", "mutants.txt")) as f:
        return ast.literal_eval("[" + f.read() + "]")


def run(m, tests, nproc):
    name, checks, path, old, new = m
    tmp = tempfile.mkdtemp(prefix="mut_")
    out = [name]
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(repo, path)
        src = open(p).read()
        if src.count(old) != 1:
            return "%s: text occurs %d times in %s" % (name, src.count(old), path)
        open(p, "w").write(src.replace(old, new))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        if tests:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--co", "-q", "tests"],
                cwd=repo, env=env, capture_output=True, text=True)
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=" + tmp + "/j.xml",
                 "tests"], cwd=repo, env=env, capture_output=True, text=True)
            out.append(r.stdout.strip().splitlines()[-1])
        verif = os.path.join(tmp, "verif")
        os.makedirs(verif)
        for f in ("mc", "run.py", "known_findings.txt"):
            s = os.path.join(HERE, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(verif, f))
        for c in checks.split():
            r = subprocess.run(["/opt/venv/bin/python", "run.py", c], cwd=verif, capture_output=True, text=True,
                               env=dict(env, VERIF_REPO=repo, VERIF_NPROC=str(nproc)))
            lines = r.stdout.strip().splitlines()
            what = ""
            for i, ln in enumerate(lines):
                if "violating case" in ln:
                    what = ln[:160] + " | " + (lines[i + 1][:200] if i + 1 < len(lines) else "")
            out.append("%s %s %s" % (c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d %s" % (r.returncode, r.stderr[-300:])), what))
    finally:
        shutil.rmtree(tmp)
    return "\n   ".join(out)


def main():
    args = sys.argv[1:]
    tests = "-t" in args
    jobs = int(args[args.index("-j") + 1]) if "-j" in args else 2
    pats = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-j")]
    ms = [m for m in load() if not pats or any(p in m[0] or p in m[1].split() for p in pats)]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda m: run(m, tests, max(1, 8 // jobs)), ms):
            print(r, flush=True)


if __name__ == "__main__":
    main()
