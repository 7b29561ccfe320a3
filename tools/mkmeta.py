"""Writes properties.jsonl and MANIFEST.json from one list, so that the two stay in step."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = []
CHECKS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe=None, state=None, cmd=None, technique=None, level="exploration", note=None,
         na=None):
    entry = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quantifier},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    }
    if state:
        entry["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        entry["anchors"]["observe_at"] = observe
    entry["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    PROPS.append(entry)
    if na:
        NOT_APPLICABLE.append({"property": id, "reason": na})
    else:
        CHECKS.append({
            "property": id,
            "quick_cmd": "%s %s --quick" % (PY, cmd),
            "thorough_cmd": "%s %s --thorough" % (PY, cmd),
            "evidence_file": "evidence/%s.json" % id,
            "technique": technique,
            "level": level,
            "level_note": note,
        })


exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": CHECKS,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Every check runs the code in /repo's working tree: pipelines are compiled from it in memory on each run, nothing is read from a cache. "
                 "No hooks were added to /repo; monitors observe through the public API, the process boundary and system-call interposition.",
    }, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(CHECKS), "checks")
