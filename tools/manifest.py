#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json. Run: python3 tools/manifest.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here + "/../lib", here + "/../gen"]
sys.dont_write_bytecode = True
import props
m = {"version": 1, "setup_cmd": "bash lib/setup.sh",
     "checks": [{"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                 "technique": props.PROPS[p]["technique"], "level": props.PROPS[p]["level"], "level_note": props.PROPS[p]["note"]} for p in sorted(props.PROPS)],
     "not_applicable": props.NOT_APPLICABLE,
     "notes": "TLA+ with TLC. See DESIGN.md. known-findings.txt lists the repaired defects."}
if os.environ.get("HOOKS"): pass
with open(here + "/../MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
