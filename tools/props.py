#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NIXF = "ASan+UBSan build of libnixf (asserts on); "


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=(), level="exploration",
      na=None, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe, state=state, level=level, na=na, hook=hook))


exec(open(os.path.join(VERIF, "tools", "propdefs.py")).read())

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                            "mechanism": [dict(name=n, where=w) for n, w in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
    json.dump({
        "version": 1,
        "setup_cmd": "python3 tools/build.py asan nixfprobe >/dev/null",
        "checks": [{
            "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
            "level_note": p["note"]} for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
        "notes": "No hooks are needed in /repo: the checks link the repository's sources, rebuilt from the working tree, "
                 "with sanitizers, and drive the real programs. `python3 check.py <ID> replay <path>` runs one "
                 "reported case again.",
    }, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
