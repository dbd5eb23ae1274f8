#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--secs S] [--replay FILE]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core
if __name__ == "__main__":
    m = importlib.import_module("vp.checks." + sys.argv[1].lower())
    try:
        rc = core.main(m.CHECK, sys.argv[2:])
    except SystemExit as e:
        print(e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
