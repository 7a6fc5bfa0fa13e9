#!/usr/bin/env python3
"""builds the analysis tools ahead of the checks (every check also builds them on demand)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
for t in ('irdump',):
    print(tool(t))
