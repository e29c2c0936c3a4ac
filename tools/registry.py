"""Writes properties.jsonl and MANIFEST.json. One P(...) per property, in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            o.write(json.dumps(rec, ensure_ascii=False) + "\n")
            if p.get("na"):
                na.append({"property": p["id"], "reason": p["na"]})
                continue
            assert os.path.exists(os.path.join(ROOT, "checks", p["script"])), p["script"]
            checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s --tier quick" % p["script"],
                           "thorough_cmd": "python3 checks/%s --tier thorough" % p["script"],
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 lib/natbuild.py", "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds the compiler and the runtime from the working tree of /repo (cached by "
                  "content under /verif/.cache), generates its cases from VERIF_SEED alone and shrinks what fails."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as o:
        json.dump(m, o, indent=1, ensure_ascii=False)
        o.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


main()
