#!/usr/bin/env python3
"""setup_cmd: builds what the checks run, so that they only rebuild what changed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from rbv import build
print(build.binary())
for h in ("h_bencode", "h_writer", "h_magnet", "h_tracker"):
    print(build.harness(h))
