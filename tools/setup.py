#!/usr/bin/env python3
"""Builds the engine, the IR and the replay programs once (every check rebuilds what changed)."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, V + "/check.py", "--setup"], cwd=V))
