#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks, meta
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted(meta.P.items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "CBMC over /repo's sources; see DESIGN.md. run.py ID --tier quick|thorough."}
for pid in sorted(meta.P):
    p = meta.P[pid]
    if pid in checks.CHECKS:
        m["checks"].append({"property": pid, "quick_cmd": "python3 run.py %s --tier quick" % pid, "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                            "technique": checks.CHECKS[pid].get("technique", "bounded symbolic execution of the real C code (CBMC, SAT), counterexamples replayed natively"),
                            "level": "other", "level_note": "%s. Bounds: %s. Trusted: CBMC's C semantics, the stubs in h/." % (p["note"], p["bounds"])})
    else:
        m["not_applicable"].append({"property": pid, "reason": meta.NA[pid]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
# the per-property part of DESIGN.md
d = os.path.join(V, "DESIGN.md")
t = open(d).read()
a, b = "<!-- properties: written by gen.py -->\n", "<!-- end of properties -->\n"
out = []
for pid in sorted(meta.P):
    p = meta.P[pid]
    if pid not in checks.CHECKS:
        out.append("### %s %s\n\nNot applicable: %s\n" % (pid, p["title"], meta.NA[pid]))
        continue
    hs = checks.CHECKS[pid]["harnesses"]
    names = lambda tier: ", ".join("`%s`" % h.name for h in hs if h.tier == tier)
    th = [h for h in hs if h.tier != "quick"]
    out.append("### %s %s\n\n%s\n\n" % (pid, p["title"], p["statement"]) +
               "* Ranges over: %s. Out of the tests' reach because %s.\n" % (p["quant"], p["why"]) +
               "* Code: %s.\n" % "; ".join("%s (`%s`)" % m for m in p["mech"]) +
               "* Harnesses (%s): %s%s.\n" % (", ".join(sorted({"`h/%s`" % h.file for h in hs})), names("quick"),
                                              "" if not th else "; thorough adds %s" % names("thorough") if len(th) < 12 else "; thorough adds %d more of these with deeper bounds" % len(th)) +
               "* Bounds: %s.%s\n" % (p["bounds"], "" if not p["assumptions"] else " Assumed: %s." % "; ".join(p["assumptions"])) +
               "* Remarks: %s.\n" % p["note"])
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + t[t.index(b):]
with open(d, "w") as f:
    f.write(t)
