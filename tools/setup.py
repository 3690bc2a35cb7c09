"""setup_cmd: nothing to build; checks that the two interpreters the checks use are present."""
import subprocess, sys, os
ok = 0
for cmd in (["python3-vt", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import torch"]):
    ok |= subprocess.run(cmd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).returncode
sys.exit(ok)
