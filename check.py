#!/usr/bin/env python3
"""python3 check.py <property id>: run the check of one property."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import checks, vlib
if __name__ == "__main__":
    fn, level, assumptions = checks.CHECKS[sys.argv[1]]
    vlib.main(sys.argv[1], fn, level, assumptions)
