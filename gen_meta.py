#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the check modules (their PROP and CHECK)."""
import importlib, json, sys
from pathlib import Path

V = Path(__file__).resolve().parent
sys.path[:0] = [str(V / "lib"), str(V / "checks"), str(V / "sim")]
NA = json.loads((V / "not_applicable.json").read_text()) if (V / "not_applicable.json").exists() else []
props, checks = [], []
for f in sorted((V / "checks").glob("c*.py")):
    m = importlib.import_module(f.stem)
    p = m.PROP
    props.append(p)
    c = m.CHECK
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": getattr(m, "TECHNIQUE", "stateful property-based testing of the real servers against a reference model"),
        "level": c.LEVEL,
        "level_note": getattr(m, "LEVEL_NOTE", "%d generated cases per quick run, %d per thorough run; non-trivial: %s" % (c.QUICK, c.THOROUGH, c.RULE)),
    })
for n in NA:
    props.append(n["property"])
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in sorted(props, key=lambda p: p["id"])))
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "python3 sim/build.py asan plain",
    "hooks": {
        "guard": "IRCD_NO_FREELIST",
        "enable": "sim/build.py compiles the sources of /repo's working tree with -DIRCD_NO_FREELIST in its asan variant (freed structures go back to the allocator at once, so that AddressSanitizer sees a use of them); the plain variant and the ordinary build leave it off",
        "source_commits": ["cfb488d"],
    },
    "checks": checks,
    "not_applicable": [{"property": n["property"]["id"], "reason": n["reason"]} for n in NA],
    "notes": "Every check is `python3 check.py ID TIER`; `--replay FILE` re-runs a saved failing case. See DESIGN.md.",
}, indent=1) + "\n")
rows = ["| bug | property | needs | breaks |", "|--|--|--|--|"]
for f in sorted(V.glob("seeded/*/meta.json")):
    d = json.loads(f.read_text())
    rows.append("| %s | %s | %s | %s |" % (f.parent.name, d["property"], d["needs"], d["what_it_breaks"]))
t = (V / "DESIGN.md").read_text()
a, b = t.index("<!-- seeded -->"), t.index("<!-- /seeded -->")
(V / "DESIGN.md").write_text(t[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + t[b:])
print(len(props), "properties,", len(checks), "checks")
