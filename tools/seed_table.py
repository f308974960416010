#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json.
import json, glob, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); t = ["<!-- seeds -->", "| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")): d = json.load(open(f)); t.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d.get("caught_by", d["property"]), d["what_it_breaks"], d["needs"]))
t.append("<!-- /seeds -->"); p = H + "/DESIGN.md"; s = open(p).read(); b = "\n".join(t)
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: b, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", b); open(p, "w").write(s)
