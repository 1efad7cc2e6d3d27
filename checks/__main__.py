import importlib
import sys

prop = sys.argv[1]
mod = importlib.import_module(f"checks.{prop.lower()}")

from mc.report import run_check  # noqa: E402

rc = run_check(prop, mod.LEVEL, mod.check)
sys.stdout.flush()
sys.stderr.flush()
import os  # noqa: E402

os._exit(rc)
