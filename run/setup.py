#!/usr/bin/env python3
"""Offline setup: checks that the toolchain works; the simulators themselves
are built by each check from /repo's current tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib as S
os.makedirs(S.BUILD, exist_ok=True)
os.makedirs(S.OUT, exist_ok=True)
r = subprocess.run(['clang++', '--version'], capture_output=True, text=True)
print(r.stdout.splitlines()[0] if r.returncode == 0 else 'clang++ missing')
sys.exit(0 if r.returncode == 0 else 1)
