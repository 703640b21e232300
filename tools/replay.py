#!/usr/bin/env python3
"""replay.py <case file> [-v]   run a recorded case against /repo's working tree."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
sim = build.build()
sys.exit(subprocess.call([sim, "run", sys.argv[1]] + sys.argv[2:]))
