#!/usr/bin/env python3
"""Setup: nothing to build; confirm the tools and the source parse."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import cast
if not shutil.which("clang"):
    sys.exit("clang not found")
for a in ("arm", "riscv"):
    tu = cast.load(a)
    print(a, len(tu.functions), "functions parsed")
