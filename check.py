#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough]"""
import sys, os, importlib
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "props"))
import core
pid = sys.argv[1]
m = importlib.import_module(pid.lower())
sys.exit(core.main(pid, m.run, m.TECHNIQUE, getattr(m, "LOAD", None)))
