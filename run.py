import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa: E402

boot.boot()
from vlib import harness  # noqa: E402

pid = sys.argv[1]
mod = importlib.import_module("checks." + pid.lower())
harness.main(pid, mod.check)
