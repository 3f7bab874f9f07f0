#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/props_cfg.py and tools/na.py."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from props_cfg import CFG
from na import NA
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
assert set(CFG)|set(NA)==set(ids) and not set(CFG)&set(NA),(set(ids)^(set(CFG)|set(NA)),set(CFG)&set(NA))
m=dict(version=1,setup_cmd="python3 tools/setup.py",
 hooks=dict(guard="APRON_SIM",enable="tools/build.py compiles /repo's sources with -DAPRON_SIM (no hook is needed so far: the instrumentation is done by compiler flags and symbol renaming)",source_commits=[]),
 checks=[dict(property=p,quick_cmd="python3 check.py "+p,thorough_cmd="VERIF_TIER=thorough python3 check.py "+p,technique=CFG[p]["technique"],level=CFG[p].get("level","exploration"),level_note=CFG[p]["note"]) for p in ids if p in CFG],
 not_applicable=[dict(property=p,reason=NA[p]) for p in ids if p in NA],
 notes="All checks: deterministic simulation with fault injection; see DESIGN.md. Replay a file with: python3 tools/replay.py FILE")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
