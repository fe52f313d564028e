#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--phase P --case I]"""
import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    m = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(m.CHECK.main(sys.argv[2:]))
