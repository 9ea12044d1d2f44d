#!/usr/bin/env python3
"""setup: nothing to install; checks that the interpreter and the package are usable"""
import subprocess, sys
py = "/opt/venv/bin/python"
r = subprocess.run([py, "-c", "import sys; sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True; import multibag, bagit, fs; print('ok')"])
sys.exit(r.returncode)
