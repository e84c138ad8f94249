"""Run the checks of the planted bugs against patched copies of /repo/staircase (in a scratch directory).

usage: tools/seeds.py [ID ...]     (default: all; results are kept in tools/design/seed_results.json)
Developer tool; no registered check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(ROOT, "tools", "design", "seed_results.json")


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    for n in ids:
        d = os.path.join(ROOT, "seeded", n)
        prop = os.environ.get("PROP") or json.load(open(d + "/meta.json"))["property"]
        m = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.run(["cp", "-a", "/repo/staircase", m], check=True)
            r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + m, d + "/patch.diff"], cwd="/", capture_output=True, text=True)
            if r.returncode:
                print(n, "does not apply:", r.stderr)
                continue
            t = time.time()
            r = subprocess.run(["./check", prop, "quick"], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, MC_REPO=m, MC_MAX_VIOL="6"))
            caught = r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in r.stdout.splitlines())
            sp = [l.split()[0][6:] for l in r.stdout.splitlines() if l.strip().startswith("space=")]
            res.setdefault(n, {})[prop] = {"caught": caught, "spaces": sorted(set(s for s in sp if s)), "wall": round(time.time() - t)}
            print(n, prop, "caught" if caught else "MISSED rc=%d" % r.returncode, res[n][prop], flush=True)
        finally:
            shutil.rmtree(m)
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)


main()
