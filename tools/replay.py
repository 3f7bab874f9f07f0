#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuilds the simulator from /repo and replays a scenario file; exit 1 when it fails."""
import os,sys,re,subprocess
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from props_cfg import CFG
text=open(sys.argv[1]).read()
prof=re.search(r"^profile (\S+)",text,re.M).group(1); var=re.search(r"^# variant (\S+)",text,re.M)
for p,C in CFG.items():
    for pr in C["profiles"]:
        if pr["profile"]==prof and (not var or pr.get("variant","asan")==var.group(1)):
            v=pr.get("variant","asan"); e,_=B.build(v,pr["libs"],main="sim_%s_%s"%(v,pr.get("tag",p)),srcs=pr.get("srcs",B.CXXSRCS if v=="cxx" else B.SIMSRCS))
            sys.exit(subprocess.call([e,"replay",sys.argv[1]]+sys.argv[2:]))
sys.exit("unknown profile "+prof)
