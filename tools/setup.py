#!/usr/bin/env python3
"""Self test of the toolchain: compiles the Num operators and model checks their self test."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
c = vlib.Check("SETUP", "quick", 1)
try:
    c.model_check("NumSelf", expect_min=0)
    print("setup ok")
finally:
    c.close()
