#!/usr/bin/env python3
"""Source of DESIGN.md (run by hand after editing)."""
import ast, json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(H, p)).read()
man = json.loads(rd("MANIFEST.json"))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
seeds = {}
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
o = [rd("tools/design_intro.md")]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    o.append("*Property.* %s\n" % p["statement"])
    if i in na:
        o.append("*Not applicable.* %s\n" % na[i])
        continue
    m = ast.parse(rd("rules/%s.py" % i.lower()))
    doc = ast.get_docstring(m)
    doc = doc[len(i) + 2:] if doc.startswith(i) else doc
    o.append("*Decision.* %s\n" % " ".join(doc.split()))
    for s in m.body:
        if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == "ASSUMES":
            o.append("*Assumes.* %s\n" % "; ".join(ast.literal_eval(s.value)))
    why = p["why_tests_cant"]
    if why:
        o.append("*Why tests cannot.* %s\n" % why)
    for n, m in seeds.get(i, []):
        o.append("*Planted* `%s`: %s (needs %s) - caught by %s.\n" % (n, m["what_it_breaks"], m["needs"], m.get("caught_by", i)))
o.append("## Defects found in /repo\n")
k = json.loads(rd("known_findings.json"))
o.append("Repaired (each a `fix:` commit in /repo):\n")
o += ["- %s" % f[len("fixed: property="):] for f in k["fixed"]]
o.append("\nRecorded, not repaired (`known_findings.json`):\n")
o += ["- %s: %s" % (f["property"], f["what"]) for f in k["findings"]]
o.append("")
o.append(rd("tools/design_tail.md"))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(o))
