#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC"
NOTES = {}
def main():
    import sys
    have = [p for p in (f"C{i:02d}" for i in range(1, 21)) if os.path.exists(os.path.join(HERE, "harness", p.lower() + ".py"))]
    checks = [{"property": p, "quick_cmd": f"./run.py {p} --tier quick", "thorough_cmd": f"./run.py {p} --tier thorough",
               "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
               "level_note": NOTES.get(p, "bounded: TLC explores the design model exhaustively within its stated bounds; the implementation is covered on the recorded traces")} for p in have]
    na = [{"property": f"C{i:02d}", "reason": "check under construction"} for i in range(1, 21) if f"C{i:02d}" not in have]
    json.dump({"version": 1, "setup_cmd": "./run.py selftest", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
