#!/usr/bin/env python3
"""Writes vp/baseline_literals.json: the numeric literals of the current /repo.  Literals that appear later are used as
extra values by the generators (a fuzzing dictionary); they never influence a verdict."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vp import gen
json.dump(sorted(gen.mine("/repo")), open(os.path.join(V, "vp/baseline_literals.json"), "w"))
