#!/usr/bin/env python3
"""Offline build of the framework: the TLC value classes and the harness."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build_java, build_harness
build_java()
build_harness()
build_harness("rust_ecc", "rust")
print("ok")
