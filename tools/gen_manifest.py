#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the simulator implements."""
import json, os, subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=subprocess.check_output([os.path.join(V,"target/gui/release/dandy-sim"),"list"],text=True).split()
NOTE={}
exec(open(os.path.join(V,"tools/notes.py")).read())
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for i in ids:
    tech,level,note=NOTE[i]
    m["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
        "evidence_file":f"evidence/{i}.json","technique":tech,"level":level,"level_note":note})
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
for p in props:
    if p not in ids:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check under construction")})
m["notes"]="No hooks in /repo: the code's own seams (Drawer trait, text formats, handle API, process boundary) and interposition of libc suffice. Repairs of genuine defects are the fix: commits listed in known-findings.txt."
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
