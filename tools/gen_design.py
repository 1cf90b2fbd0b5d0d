#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: repaired defects and planted bugs."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
def put(tag, text):
    global s
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, text, tag), s, flags=re.S)
L = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
L.sort(key=lambda f: (f["property"], int(f["id"][1:])))
def row(f):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f["line"])
    return "| %s | %s | %s |" % (m.group(1), m.group(2), m.group(3).replace("|", "\\|"))
put("fixes", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(row(f) for f in L if f["status"] == "fixed"))
rows = []
C = json.load(open(os.path.join(V, "tools", "catches.json"))) if os.path.exists(os.path.join(V, "tools", "catches.json")) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), ", ".join(c for c, v in C.get(i, {}).items() if v == "caught") + "".join(" (not %s)" % c for c, v in C.get(i, {}).items() if v != "caught") or "?"))
put("seeds", "| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(p, "w").write(s)
