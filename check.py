#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mp import harness, checks  # noqa: E402
sys.exit(harness.main(checks.CHECKS))
