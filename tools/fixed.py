#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT CLAUSE WHAT: record a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
pid, commit, key, what = sys.argv[1:]
d.append({"property": pid, "status": "fixed", "commit": commit, "key": key, "what": "fixed: property=%s %s %s" % (pid, commit, what)})
json.dump(d, open(p, "w"), indent=1)
