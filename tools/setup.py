"""Confirms that the checks can run here: imports the simulator and the code under test."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CODE = """
import sys
sys.path.insert(0, %r)
from sim.boot import boot
boot()
from sim import checks
print("checks:", " ".join(sorted(checks.CHECKS)))
""" % HERE
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.exit(subprocess.call([PY, "-X", "utf8", "-c", CODE], cwd=HERE,
                         env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}))
