#!/usr/bin/env python3
"""Writes MANIFEST.json from the suites (run from /verif)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
TECH = "TLA+ specification; TLC-generated behaviours replayed on the real code and every recorded trace checked against the specification with TLC"
NOTE = ("Conformance: random behaviours of the TLA+ state machine (bounded depth, 4 peers and an outsider) run on keyhive_core; "
        "every step and every resulting state of every peer is checked against the specification.")
NOTE_MC = NOTE + " The rules themselves are model-checked exhaustively on small instances."
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in suites.NOT_YET:
        continue
    mc = bool(suites.MODEL.get(p))
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": TECH + ("; bounded models checked exhaustively" if mc else ""),
                   "level": "model_checking", "level_note": NOTE_MC if mc else NOTE})
m = {"version": 1,
     "setup_cmd": "bash -c '. /opt/vp/env.sh 2>/dev/null; cd harness && CARGO_TARGET_DIR=../target cargo build --offline'",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses keyhive_core's public API with its existing test_utils/ingest features", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(suites.NOT_YET.items())]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
