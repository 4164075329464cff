#!/usr/bin/env python3
"""Pre-builds the flavors the checks use from /repo's current sources (checks rebuild on change by content hash)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import drv
print(drv.driver("rel"))
print(drv.driver("asan"))
