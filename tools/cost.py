"""Run all quick checks one after the other and write tools/cost.txt: python3 tools/cost.py"""
import json
import os
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(HERE, "MANIFEST.json")))
out = []
for c in M["checks"]:
    i = c["property"]
    t = time.time()
    r = subprocess.run(c["quick_cmd"], shell=True, cwd=HERE, capture_output=True, text=True)
    dt = time.time() - t
    cov = json.load(open(os.path.join(HERE, "evidence", i + ".json")))["coverage"]
    print(i, r.returncode, "%.0f" % dt, flush=True)
    out.append("%s %.0f %s %s %s" % (i, dt, cov.get("cases_executed", "-"), cov.get("states", "-"), cov.get("transitions", cov.get("evaluations", "-"))))
with open(os.path.join(HERE, "tools", "cost.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
