#!/usr/bin/env python3-vt
"""Checks the tools and compiles the run-time of the engine (the checks compile everything else from /repo themselves)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, "engine"))
import z3
import build as B
print("z3", z3.get_version_string()); print(B.compile_one(f"{H}/engine/symrt.cpp", False, B.RTFLAGS))
