#!/usr/bin/env python3
"""Pre-builds the library variants and harnesses (each check also builds what it needs by itself)."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/lib")
import build as B
from props import PROPS
for p in PROPS.values():
    if p["na"]: continue
    for v, h in p["harness"]:
        try: B.build(v, h, extra_src=p["extra_src"])
        except RuntimeError as e: print(p["id"], e)
