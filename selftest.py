#!/usr/bin/env python3
"""Setup: nothing to build.  Makes sure that the interpreter, the code under test and the machinery load."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("MV_CHILD") != "1" and os.path.exists(PY):
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)], dict(os.environ, MV_CHILD="1", PYTHONDONTWRITEBYTECODE="1"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("MV_REPO", "/repo"), os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
from mv import gen, render, server  # noqa: E402

import random  # noqa: E402

s = gen.Gen(random.Random(1)).schema()
srv = server.Server("mysql80")
for q in render.schema_sql(s):
    srv.execute(q, {"fk_checks": False, "autocommit": True})
print("ok: %d tables, python %s" % (len(srv.tables), sys.version.split()[0]))
