#!/usr/bin/env python3
"""Builds every simulator executable the checks use (a warm cache; each check rebuilds what changed)."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from props_cfg import CFG
for p,C in CFG.items():
    for pr in C["profiles"]:
        v=pr.get("variant","asan"); e,n=B.build(v,pr["libs"],main="sim_%s_%s"%(v,pr.get("tag",p)),srcs=pr.get("srcs",B.CXXSRCS if v=="cxx" else B.SIMSRCS)); print(e,n)
