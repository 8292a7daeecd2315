#!/usr/bin/env python3
"""Builds the fact extractor (checks rebuild it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sqlib import extract
extract.build_tool()
print("extractor ready")
