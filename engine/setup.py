#!/usr/bin/env python3
"""setup_cmd: builds the extractor and precompiled header and warms the extraction cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prog import Prog
p = Prog()
print("translation units %d, functions %d" % (len(p.tus), len(p.fns)))
