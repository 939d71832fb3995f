#!/usr/bin/env python3
import os, sys
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.environ.get("PYVC_IN_VENV") != "1":
    os.execve(VENV, [VENV, os.path.abspath(__file__), *sys.argv[1:]], dict(os.environ, PYVC_IN_VENV="1", PYTHONDONTWRITEBYTECODE="1"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import selftest
sys.exit(selftest.main())
