#!/usr/bin/env python3
"""Entry point of every check: run.py <property> [--replay FILE] [--tier T] [--seed N] [--facet NAME]."""

import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    _py = "/opt/venv/bin/python"
    _exe = _py if os.path.exists(_py) else sys.executable
    os.execv(_exe, [_exe, os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pbt.env import setup_environment  # noqa: E402

setup_environment()

from pbt.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
