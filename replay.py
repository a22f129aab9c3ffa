#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuild the simulator from /repo and replay a violation (exit 1: reproduced, 0: gone)."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
m = re.search(r"^# variant (\S+)", open(sys.argv[1]).read(), re.M)
exe = build.build(m.group(1) if m else "plain")
sys.exit(subprocess.call([exe, "replay"] + sys.argv[1:]))
