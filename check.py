#!/usr/bin/env python3
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("VSA_HASH") != "1":
    os.environ["VSA_HASH"] = "1"; os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vsa import run
sys.exit(run.main(sys.argv))
