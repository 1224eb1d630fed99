#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: decide one property against /repo."""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import boot  # noqa: E402

boot.reexec()
boot.boot()


def main():
    pid = sys.argv[1]
    from harness import core

    mod = importlib.import_module("checks." + pid.lower())
    prop = mod.PROPERTY
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return core.run_replay(prop, sys.argv[3])
    return core.run_check(prop, boot.ROOT)


if __name__ == "__main__":
    sys.exit(main())
