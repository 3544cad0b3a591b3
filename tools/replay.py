#!/usr/bin/env python3
"""Judge the trace of a replay file again: tools/replay.py replays/CNN/x.json"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
d = json.load(open(sys.argv[1]))
c = vlib.Ctx(d["property"])
c.validate(d["module"], [d["trace"]])
print("accepted" if not c.violations else "rejected")
