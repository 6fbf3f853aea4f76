#!/usr/bin/env python3
"""Regenerate the table of planted bugs of DESIGN.md from seeded/*/meta.json, and the count of repaired defects."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
s = open(V + "/DESIGN.md").read()
a = s.index("| Bug | What it breaks | Needs |")
b = s.index("\n\n", a)
s = s[:a] + "| Bug | What it breaks | Needs |\n|---|---|---|\n" + "\n".join(rows) + s[b:]
n = sum(l.startswith("fixed:") for l in open(V + "/KNOWN_FINDINGS.txt"))
s = re.sub(r"\d+ genuine defects were found", "%d genuine defects were found" % n, s)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs,", n, "defects repaired")
