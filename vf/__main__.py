import importlib
import sys

from vf.core import main

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(f"vf.checks.{pid.lower()}")
    sys.exit(main(pid, mod.run))
