#!/usr/bin/env python3
"""Builds the translator (engine/ll2c.cpp) once; checks rebuild everything else from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import vfe
print("translator:", vfe.ll2c_path())
