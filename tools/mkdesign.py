#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt and the planted bugs' meta.json / tools/caught.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+"/tools/caught.json")); rows=[]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=d.split("/")[-2]; m=json.load(open(d)); rows.append("| %s | %s | %s; needs %s | %s |"%(i,m["property"],m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/"),c.get(i,"not run")))
open(V+"/DESIGN.md","w").write(open(V+"/tools/design.txt").read().replace("@SEEDS@","\n".join(rows)))
