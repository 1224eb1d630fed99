#!/usr/bin/env python3
"""Nothing to build (pure Python): see that the interpreter, the generator
library and /repo's giddy can be imported together."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot
boot.reexec()
boot.boot()
import giddy, hypothesis
print("giddy from", os.path.dirname(giddy.__file__), "hypothesis", hypothesis.__version__)
