#!/usr/bin/env python3
"""Builds the LLVM IR and the replay binary once, to show that everything needed is there (the checks rebuild from /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lsym import build
lls, b, pb, s = build.build()
print('%d modules, %s, %.1f s' % (len(lls), b, s))
