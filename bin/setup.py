"""Nothing to build: checks that the two interpreters and the solver are there."""
import subprocess, sys
r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3; print('z3', z3.get_version_string())"])
s = subprocess.run(["/opt/venv/bin/python", "-c", "import fluent.syntax, fluent.runtime; print('fluent importable')"])
sys.exit(r.returncode or s.returncode)
