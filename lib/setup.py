#!/usr/bin/env python3
"""Build the Num override used by TLC."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
print(vf.build_java())
