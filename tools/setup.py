#!/usr/bin/env python3-vt
"""Prebuilds the exporter (checks rebuild whatever is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import build
print(build.exporter())
