#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
sys.dont_write_bytecode = True
import check
code = check.main(sys.argv)
sys.stdout.flush()
sys.exit(code)
