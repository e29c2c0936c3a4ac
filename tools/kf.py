"""Append a `fixed` entry to known_findings.jsonl: kf.py <property> <commit> <what failed>."""
import json
import os
import sys

pid, commit, what = sys.argv[1:4]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "a") as o:
    o.write(json.dumps({"property": pid, "status": "fixed", "commit": commit,
                        "what": "fixed: property=%s %s %s" % (pid, commit, what)}) + "\n")
