#!/usr/bin/env python3
"""run.py CXX [--tier quick|thorough] [--seed N] [--replay FILE] [-v]   |   run.py setup"""
import importlib, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, runner
pid = sys.argv[1]
if pid == "setup":
    # checks build what they need themselves; here only make sure the tools are there
    for tool in ("clang++", "g++", build.PYTHON, build.VENV + "/bin/python"):
        subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
    subprocess.run(build.CYTHON + ["--version"], check=True)
    sys.exit(0)
mod = importlib.import_module("vlib.checks." + pid.lower())
runner.main(pid, mod.body, **getattr(mod, "OPTIONS", {}))
