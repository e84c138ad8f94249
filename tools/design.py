"""DESIGN.md from tools/design/*.md, known_findings.json, seeded/*/meta.json and tools/design/seed_results.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, "tools", "design")
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
res = json.load(open(D + "/seed_results.json")) if os.path.exists(D + "/seed_results.json") else {}
fixed = []
for e in kf["fixed"]:
    head, what = e.split(" before the repair this did not hold: ")
    _, prop, commit = head.rstrip(":").split()
    fixed.append("| %s | %s | %s |" % (prop.split("=")[1], commit.rstrip(":"), what))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", n, "meta.json")))
    r = res.get(n, {})
    by = ", ".join("%s (%s)" % (p, ", ".join(v["spaces"][:4])) for p, v in sorted(r.items()) if v["caught"])
    missed = [p for p, v in r.items() if not v["caught"]]
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"), by or ("missed" if missed else "not run")))
t = open(D + "/template.md").read()
t = t.replace("@@PROPS@@", open(D + "/props.md").read().strip())
t = t.replace("@@FIXED@@", "| property | commit | repaired: |\n|---|---|---|\n" + "\n".join(sorted(fixed)))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
