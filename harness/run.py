"""Entry point: ``python -m harness.run C01``"""
import importlib
import os
import sys
from . import common

if __name__ == "__main__":
    name = sys.argv[1].lower()
    files = [f[:-3] for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f.startswith(name + "_")]
    module = importlib.import_module("harness." + files[0])
    sys.exit(common.main(module.CHECK))
