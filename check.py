#!/usr/bin/env python3
"""check.py ID : decides property ID on the current /repo tree (see DESIGN.md)."""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"engine"))
import runner
sys.exit(runner.main(sys.argv[1:]))
