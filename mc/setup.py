#!/usr/bin/env python3
"""Sanity of the toolchain; every check builds what it needs itself."""
import subprocess, sys
r = subprocess.run(["/usr/bin/clang++", "--version"], stdout=subprocess.PIPE)
sys.exit(0 if r.returncode == 0 else 1)
