#!/usr/bin/env python3
"""add a record: finding.py PROPERTY fixed|known TEXT"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
l = json.load(open(p))
prop, st, text = sys.argv[1:4]
l.append({"property": prop, "status": st, "line": ("fixed: property=%s %s" if st == "fixed" else "KNOWN-FINDING: property=%s %s") % (prop, text)})
json.dump(l, open(p, "w"), indent=1)
