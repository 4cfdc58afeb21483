#!/usr/bin/env python3
"""Checks that everything the framework needs builds from /repo's current tree."""
import sys
sys.dont_write_bytecode = True
from lib import build
for f in ("asan", "clang", "plain", "tsan"):
    print(build.driver(f))
