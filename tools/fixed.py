#!/usr/bin/env python3
"""tools/fixed.py ID "what failed": records the last fix commit of /repo.  tools/fixed.py ID KEY "what": a finding."""
import json, subprocess, sys
fn = "/verif/known_findings.json"
d = json.load(open(fn))
if len(sys.argv) == 3:
    h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
elif sys.argv[2][:1] == "@":
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2][1:], sys.argv[3]))
else:
    d["findings"].append({"property": sys.argv[1], "key": sys.argv[2], "what": sys.argv[3]})
json.dump(d, open(fn, "w"), indent=1)
open(fn, "a").write("\n")
