#!/usr/bin/env python3
"""Puts DESIGN.md together."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(os.path.join(V, f)).read()
import importlib.util
O = {}
exec(R("tools/design_oracles.py"), O)
O = O["O"]
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
man = json.loads(R("MANIFEST.json"))
out = [R("tools/design_head.md")]
claimed = {c["property"]: c for c in man["checks"]}
B = json.loads(R("tools/bounds.json")) if os.path.exists(V+"/tools/bounds.json") else {}
for p in sorted(props, key=lambda p: p["id"]):
    i = p["id"]
    f = V+"/evidence/%s.json" % i
    if os.path.exists(f):
        e = json.load(open(f)); c = e["coverage"]
        if not e.get("violations") and e.get("tier") == "quick":
            B[i] = dict(fn=c["functions_encoded"], bounds=c["bounds"], outside=c["outside"], claims=c["claims"], paths=c["paths_explored"], queries=c["queries"], wall=round(e["wall_s"]))
    out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    if i not in claimed:
        na = [n for n in man["not_applicable"] if n["property"] == i]
        out.append("Not applicable: %s\n" % (na[0]["reason"] if na else "?")); continue
    b = B.get(i)
    if b:
        out.append("* Encoded: %s." % ", ".join("`%s`" % k for k in b["fn"]))
    out.append("* Oracle and method: %s" % O.get(i, "?"))
    if b:
        out.append("* Bounds: %s. Outside: %s." % (b["bounds"], b["outside"]))
        out.append("* Cost: %d claims, %d queries, %d paths, about %d s (quick)." % (b["claims"], b["queries"], b["paths"], b["wall"]))
    w = p["why_tests_cant"]
    if w: out.append("* Why tests do not settle it: %s" % w)
    out.append("")
json.dump(B, open(V+"/tools/bounds.json", "w"), indent=1, sort_keys=True)
t = R("tools/design_tail.md")
kf = json.loads(R("known_findings.json"))
rows = []
for k in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", k["what"], re.S)
    rows.append("| %s | %s | %s |" % m.groups() if m else "| %s | open | %s |" % (k["property"], k["what"]))
t = t.replace("@FIXED@", "\n".join(rows))
rows = []
c = json.loads(R("tools/caught.json")) if os.path.exists(V+"/tools/caught.json") else {}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], c.get(i, m["property"])))
t = t.replace("@SEEDS@", "\n".join(rows))
out.append(t)
open(V+"/DESIGN.md", "w").write("\n".join(out))
