#!/usr/bin/env python3
"""Builds the extractor and the search harness."""
import os, check
os.makedirs(check.WORK, exist_ok=True)
check.build_extractor()
check.build_search()
check.build_tool()
for f in ['float', 'compare', 'convert', 'types', 'model', 'equal', 'utf8', 'names']:
    check.kani([f], 300)
