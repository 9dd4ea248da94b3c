#!/usr/bin/env python3
"""Rewrite the generated tables at the end of DESIGN.md (properties and checks, seeded bugs)."""
import json, os, re, glob, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); sys.path.insert(0, T); sys.dont_write_bytecode = True
import props
ent = {}
for f in sorted(glob.glob(V + "/harness/*.cpp")):
    for l in open(f):
        m = re.match(r"// ENTRY: (\w+) .*property=(\w+)", l)
        if m: ent.setdefault(m.group(2), {}).setdefault(os.path.basename(f), []).append(m.group(1))
out = []
for q in sorted(props.P, key=lambda q: q["id"]):
    e = ent.get(q["id"], {})
    out.append("### %s %s\n" % (q["id"], q["title"]))
    out.append("- decided by: " + "; ".join("`harness/%s`: %s" % (f, ", ".join(n)) for f, n in e.items()))
    out.append("- over: %s" % q["text"]); out.append("- why tests cannot: %s" % q["why"]); out.append("- oracle and limits: %s\n" % q["note"])
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(s)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(s)), d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
p = V + "/DESIGN.md"; s = open(p).read()
def put(s, tag, body): return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + body + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(put(put(s, "properties", "\n".join(out)), "seeded", "\n".join(rows)))
