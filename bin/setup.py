#!/usr/bin/env python3
"""Builds the driver ahead of the checks (every check builds what it needs itself, too)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
common.build_gen()
