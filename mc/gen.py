#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/properties.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties  # noqa: E402
import registry  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    lines, checks, na = [], [], []
    for p in properties.PROPERTIES:
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mechanism"]]},
        }))
        assert len(p["title"]) <= 80, p["title"]
        if p["id"] in registry.CHECKS:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 mc/run.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["level_note"],
            })
        else:
            na.append({"property": p["id"], "reason": p["na"]})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 mc/setup.py",
        "hooks": {"guard": "CARTOGRAPHER_MODEL_CHECKING",
                  "enable": "No hooks were needed: the checks compile /repo's "
                            "sources as they are and control them at link level.",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
