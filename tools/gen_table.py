#!/usr/bin/env python3
"""gen_table.py: rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and the results noted in tools/seed_results.txt."""
import json, os, re
res = {}
f = "/verif/tools/seed_results.txt"
if os.path.exists(f):
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) (OK|\*\*BAD\*\*) (\S+)", l)
        if m: res[m[1]] = m[4].strip("*").lower()
rows = ["| change | property | needs | its check |", "|---|---|---|---|"]
for d in sorted(os.listdir("/verif/seeded")):
    j = json.load(open("/verif/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "/"), res.get(d, "?")))
p = "/verif/DESIGN.md"; s = open(p).read()
if "@TABLE@" in s: s = s.replace("@TABLE@", "<!-- seeds -->\n<!-- end -->")
a, b = s.index("<!-- seeds -->"), s.index("<!-- end -->")
s = s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
