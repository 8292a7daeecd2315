#!/usr/bin/env python3
"""Regenerates DESIGN.md: the per-property sections take technique, rule and limits from the check modules themselves."""
import ast, json, os
V = os.path.dirname(os.path.abspath(__file__))
HEAD = open(os.path.join(V, "design", "head.md")).read()
TAIL = open(os.path.join(V, "design", "tail.md")).read()
EX = json.load(open(os.path.join(V, "design", "perprop.json")))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
kf = json.load(open(os.path.join(V, "known_findings.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
mods = {f.split("_")[0].upper(): f for f in os.listdir(os.path.join(V, "checks")) if f[0] == "c" and "_" in f and f.endswith(".py")}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [HEAD, "## 3. Properties decided\n"]
for p in props:
    i = p["id"]
    if i in na or i not in mods:
        continue
    t = ast.parse(open(os.path.join(V, "checks", mods[i])).read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
         and n.targets[0].id in ("TECHNIQUE", "NOTE", "RULE")}
    e = EX.get(i, {})
    out.append("### %s — %s (`checks/%s`)\n" % (i, p["title"], mods[i]))
    out.append("**Property.** %s\n" % p["statement"])
    out.append("* *Method.* %s." % d["TECHNIQUE"])
    out.append("* *Rule decided.* %s" % d["RULE"])
    for k, l in (("oracle", "Oracle"), ("why", "Why tests cannot reach it"), ("quiet", "Kept quiet on"), ("caught", "Planted changes")):
        if e.get(k):
            out.append("* *%s.* %s" % (l, e[k]))
    out.append("* *Limits.* %s" % d["NOTE"])
    f = [k for k in kf if k["property"] == i and k["status"] == "fixed"]
    n = [k for k in kf if k["property"] == i and k["status"] != "fixed"]
    if f:
        out.append("* *Defects found and repaired.* " + "; ".join("%s (%s)" % (k["what"].split(k["commit"], 1)[-1].strip() if k.get("commit") else
                                                                               k["what"], k.get("commit", "")[:7]) for k in f) + ".")
    if n:
        seen = []
        for k in n:
            if k["what"] not in seen:
                seen.append(k["what"])
        out.append("* *Known findings (not repaired).* " + " ".join("%s." % x.rstrip(".") for x in seen))
    out.append("")
out.append("## 4. Properties not decided\n")
for p in props:
    if p["id"] in na:
        out.append("* **%s %s** — %s" % (p["id"], p["title"], na[p["id"]]))
out.append("")
rows = ["| change | breaks | needs | reported by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    c = lambda x: " ".join(str(x).split()).replace("|", "/")
    rows.append("| `%s` | %s | %s | %s |" % (s, c(m["what_it_breaks"]), c(m["needs"]), m.get("caught_by", m["property"])))
out.append(TAIL.replace("SEEDTABLE", "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
