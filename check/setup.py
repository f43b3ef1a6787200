#!/usr/bin/env python3
"""Build the extractor and the harness once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from check import Harness
os.makedirs(engine.BUILD, exist_ok=True)
engine.build_vx()
h = Harness()
h.build()
if not h.exe:
    print("note: the harness does not build against this tree:\n" + h.log[-2000:])
