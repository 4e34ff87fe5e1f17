#!/usr/bin/env python3
"""Builds the driver, and warms the dependency builds the checks need."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
import witness

facts.build_driver()
for c in facts.CONFIGS:
    facts.build_facts(c)
witness.build_lib()
print("ready")
