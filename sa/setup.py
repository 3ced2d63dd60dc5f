#!/usr/bin/env python3
"""Nothing to build: the analyser is Python over clang's IR.  Check that the tools are there."""
import shutil, sys
for t in ("clang", "python3", "gcc", "make"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("ok")
