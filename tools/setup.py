#!/usr/bin/env python3
"""setup_cmd: build the driver and a first dump."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build
d, info = build.ensure_dump()
print(d, info)
