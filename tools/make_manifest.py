#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run after editing it)."""
import json, pathlib, sys
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
root = here.parent
lines, checks, na = [], [], []
for cid in sorted(PROPS):
    p = PROPS[cid]
    assert len(p["title"]) <= 80, (cid, len(p["title"]))
    files = []
    for f, _, _ in p["anchors"]:
        if f not in files:
            files.append(f)
    lines.append(json.dumps({
        "id": cid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": f"{f}: {w}"} for f, n, w in p["anchors"]]}}))
    if cid in NOT_APPLICABLE:
        na.append({"property": cid, "reason": NOT_APPLICABLE[cid]})
        continue
    assert (root / "checks" / (cid.lower() + ".py")).exists(), cid
    checks.append({"property": cid, "quick_cmd": f"python3 check.py {cid} --tier quick",
                   "thorough_cmd": f"python3 check.py {cid} --tier thorough",
                   "evidence_file": f"evidence/{cid}.json",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
(root / "properties.jsonl").write_text("\n".join(lines) + "\n")
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the machinery observes the public API and instrumented builds of the kernels."},
    indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
