#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; make sure the tools the checks use are there."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert shutil.which("tlc"), "tlc not found"
py = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
subprocess.check_call([py, "-c", "import pandas, numpy"])
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok")
