#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC decides the model exhaustively within small constants; recorded executions of the real code (TLC-generated, "
        "structured and random) are decided step by step against the model. Behaviour of the code that no executed "
        "scenario reaches is not covered.")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": PROPS[p].get("technique", "TLA+ model checked with TLC; recorded and TLC-generated executions of the code replayed through the model"),
                   "level": PROPS[p]["level"], "level_note": PROPS[p].get("note", NOTE)} for p in ids if p in PROPS],
       "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
       "notes": "No hooks: every observation goes through the public interface."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
