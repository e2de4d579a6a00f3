#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 /verif/tools/setup.py", checks=[], not_applicable=[])
for i in ids:
    if i in props.P:
        tech, note = props.NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 /verif/check.py %s" % i,
                                thorough_cmd="python3 /verif/check.py %s --tier thorough" % i,
                                technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
