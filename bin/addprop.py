#!/usr/bin/env python3
"""addprop.py: read JSON objects (a list) on stdin and merge them into properties.jsonl by id."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
cur = {json.loads(l)["id"]: json.loads(l) for l in open(p) if l.strip()}
for x in json.load(sys.stdin): cur[x["id"]] = x
open(p, "w").write("".join(json.dumps(cur[k]) + "\n" for k in sorted(cur)))
