"""DESIGN.md from dev/DESIGN.in.md, dev/checks.md, known_findings.json and seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
s = open(os.path.join(here, "DESIGN.in.md")).read()
checks = open(os.path.join(here, "checks.md")).read()
def bounds(m):
    ns = {}
    src = open(os.path.join(V, "checks", m.group(1).lower() + ".py")).read()
    out = []
    for name in ("BOUNDS", "OUTSIDE"):
        k = re.search(rf"^{name}\s*=\s*(\((?:.|\n)*?\"\)|\"[^\n]*\")\s*$", src, re.M)
        out.append(eval(k.group(1)))
    return "*Bounds.* " + out[0] + ".\n*Outside.* " + out[1] + "."
checks = re.sub(r"@@(C\d\d)@@", bounds, checks)
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
rows = "\n".join("* " + f["record"] for f in kf)
caught = json.load(open(os.path.join(here, "caught.json"))) if os.path.exists(os.path.join(here, "caught.json")) else {}
sd = os.path.join(V, "seeded"); t = ["| change | breaks | needs | reported by |", "|---|---|---|---|"]
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    t.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, m['property'])} |".replace("\n", " "))
s = s.replace("@@CHECKS@@", checks).replace("@@FINDINGS@@", rows).replace("@@SEEDED@@", "\n".join(t))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
