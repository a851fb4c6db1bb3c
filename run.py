#!/usr/bin/env python3
"""run.py <property> [--replay file]: runs one check against the code in /repo."""
import importlib
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("MV_CHILD") != "1" and os.path.exists(PY):
    # fixed hash seed: the same seed explores the same cases (hash order is varied on purpose in C12)
    env = dict(os.environ, MV_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"  # never trust compiled files lying around in /repo
sys.path[:0] = [os.environ.get("MV_REPO", "/repo"), os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]

from mv import harness  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        raise SystemExit("usage: run.py <property>")
    check = importlib.import_module(sys.argv[1].lower())
    code = harness.main(check, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
