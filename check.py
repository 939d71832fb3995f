#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only H1,H2] [-v]  |  check.py --replay FILE"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.environ.get("PYVC_IN_VENV") != "1":
    env = dict(os.environ, PYVC_IN_VENV="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    os.execve(VENV, [VENV, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    import argparse
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.setrecursionlimit(6000)
    from pyvc import runner
    if a.replay:
        return runner.replay(a.replay)
    return runner.check(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.only.split(",") if a.only else None, a.v)


if __name__ == "__main__":
    sys.exit(main())
