#!/usr/bin/env python3
"""Nothing to install; checks that the tools are there and that the Java override compiles."""
import os, sys
sys.argv = ["check.py"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.java_overrides()
