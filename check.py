#!/usr/bin/env python3-vt
"""Check one property against /repo's current working tree.

    python3-vt check.py <property> [--tier quick|thorough] [--contract NAME]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>" otherwise.
"""
import json
import os
import sys

REPO = os.environ.get("GDSPY_REPO", "/repo")
VERIF = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("VC_CHILD_ENV"):
    env = dict(os.environ, PYTHONHASHSEED="0", VC_CHILD_ENV="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/verif/no-pycache", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [VERIF, REPO]
from vc import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:], REPO, VERIF))
