"""setup: nothing to build; checks that the tools the checks need are present"""
import os
import subprocess
import sys

import z3

assert z3.Solver().check() == z3.sat
real = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")
subprocess.run([real, "-B", "-c", "import numpy, scipy, matplotlib"], check=True)
print("ok: z3", z3.get_version_string(), "python", sys.version.split()[0])
