#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
AI = "abstract interpretation of the compiler's own source (clang AST), "
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique=None, level=None,
      note=None, na=None, observe=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mech=mech, technique=technique, level=level,
                      note=note, na=na, observe=observe))


exec(open(os.path.join(HERE, "catalog_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["observe"]:
                o["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(o) + "\n")
    man = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": [],
           "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({
                "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
