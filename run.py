#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--only JOB] [--replay FILE] [-j N] [-v]"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("MC_REEXEC") != "1":
    # a fixed hash seed for the checker itself (properties about other seeds
    # start their own processes)
    os.environ["MC_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from mc import runner  # noqa: E402

sys.exit(runner.main())
