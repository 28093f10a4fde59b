"""Sanity check of the environment the checks run in; builds nothing (the library is pure Python, imported from /repo)."""
import os, subprocess, sys
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    sys.exit("no " + PY)
repo = os.environ.get("VERIF_REPO", "/repo")
code = "import sys; sys.path.insert(0, %r); import puncturedfem, numpy, scipy, matplotlib, numba; print('puncturedfem from', puncturedfem.__file__)" % repo
sys.exit(subprocess.run([PY, "-B", "-c", code], env=dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")).returncode)
