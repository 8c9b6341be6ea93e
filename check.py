#!/usr/bin/env python3
"""check.py CXX [--thorough]: decide property CXX for the package under /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from owcstatic.engine import AnalysisBroken  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('owcstatic.checks.' + prop.lower())
    try:
        return mod.main()
    except AnalysisBroken as e:
        print(f"{prop}: cannot analyse: {e}")
        return 2


if __name__ == '__main__':
    sys.exit(main())
