"""Writes properties.jsonl and MANIFEST.json from specs.py and na.py."""
import json, os
from specs import SPECS
from na import NA
V = os.path.dirname(os.path.abspath(__file__))
TECH = "solver-based: path-exhaustive symbolic execution of the compiled code's LLVM IR, decided by z3 within stated bounds"
with open(V + "/properties.jsonl", "w") as f:
    for pid, s in sorted(list(SPECS.items()) + list(NA.items())):
        f.write(json.dumps({"id": pid, "title": s["title"], "statement": s["statement"], "quantifier": {"over": s["over"], "text": s["text"]},
                            "why_tests_cant": s["why"], "anchors": {"files": s["files"], "mechanism": s["mechanism"], "hook_needed": None}}) + "\n")
checks = []
for pid, s in sorted(SPECS.items()):
    b = []
    for h in s["harnesses"]:
        for p in h["quick"][:1]:
            b.append(h["bound"] % tuple(p) if "%" in h["bound"] else h["bound"])
    checks.append({"property": pid, "quick_cmd": "python3 vz.py %s quick" % pid, "thorough_cmd": "python3 vz.py %s thorough" % pid,
                   "technique": TECH, "level": "other",
                   "level_note": "Holds for every value within the bounds, on every path of the code compiled from the current tree, by z3's verdict: " + "; ".join(b)
                   + ". Outside the bounds nothing is claimed. Trusts rustc's translation to LLVM IR, the executor in symex/ and z3; counterexamples are replayed natively and sampled path models are replayed against the real code." + (" " + s["note"] if s["note"] else "")})
json.dump({"version": 1, "setup_cmd": "python3 vz.py setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NA.items())],
           "notes": "See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)

# ---- DESIGN.md
import sys
sys.path.insert(0, V + "/design")
from oracles import O
from seeds import FIRST
def bounds(h, tier):
    return " / ".join(h["bound"] % tuple(p) if "%" in h["bound"] else h["bound"] for p in h[tier])
out = [open(V + "/design/head.md").read(), "\n## The properties\n"]
for pid, s in sorted(SPECS.items()):
    out.append("### %s %s\n\n%s\n\n%s\n" % (pid, s["title"], s["statement"], O[pid]))
    out.append("Why tests cannot settle it: %s Anchored in %s.\n" % (s["why"], ", ".join("`%s`" % f for f in s["files"])))
    for h in s["harnesses"]:
        out.append("* `%s` (%s): quick %s%s" % (h["entry"], h.get("crate", "harness"), bounds(h, "quick"), "; thorough " + bounds(h, "thorough") if h["thorough"] != h["quick"] else ""))
    out.append("")
    if s["outside"]:
        out.append("Outside: " + "; ".join(s["outside"]) + ".\n")
    if s["assumptions"]:
        out.append("Assumed: " + " ".join(s["assumptions"]) + "\n")
tail = open(V + "/design/tail.md").read()
kf = json.load(open(V + "/known-findings.json"))["findings"]
tail = tail.replace("@FIXES@", "\n".join("* " + k.replace("fixed: property=", "") for k in kf))
rows = ["| planted bug | property | what it breaks | needs | found at first |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], FIRST.get(d, "yes")))
tail = tail.replace("@SEEDS@", "\n".join(rows))
tail = tail.replace("@NA@", "\n".join("* %s %s: %s" % (k, v["title"], v["reason"]) for k, v in sorted(NA.items())) or "Every listed property is claimed.")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail)
