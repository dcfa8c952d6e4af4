#!/usr/bin/env python3
"""Builds the extractor and analyses the tree once, so that the first check does not have to."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.extract import load_units
print(len(load_units()), "units extracted")
