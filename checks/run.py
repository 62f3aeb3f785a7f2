#!/usr/bin/env python3
"""python3 checks/run.py <property> : decides one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
from rbv import report  # noqa: E402

prop = sys.argv[1].upper()
report.main(importlib.import_module("rbv.checks.%s" % prop.lower()).check)
