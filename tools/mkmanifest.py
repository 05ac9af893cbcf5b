"""Writes MANIFEST.json from sa/props.py and properties.jsonl."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
from sa.props import PROPS

NOTE = ("Static: gated-SSA value-flow summaries with hash-consed value numbering of the package's functions, compared with a "
        "reference model (specs/), with the other variant of the same operation, and with rules on the resolved program. "
        "Holds for all inputs the summaries range over; limits (loops as recurrences, listed opaque boundaries) are in DESIGN.md.")
ids = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
assert sorted(ids) == sorted(PROPS), set(ids) ^ set(PROPS)
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 -m sa.run {i}",
        "thorough_cmd": f"python3 -m sa.run {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": PROPS[i].get("technique", "static value-flow equivalence with a reference model"
                                  + (" plus rules on the resolved call graph" if PROPS[i].get("rules") else "")
                                  if PROPS[i].get("ref") else "static value-flow equivalence of sync/async variants"),
        "level": "other",
        "level_note": NOTE,
    } for i in ids],
    "not_applicable": [],
    "notes": "Checks read /repo's source only; nothing of the package is imported or run. Python standard library only.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
