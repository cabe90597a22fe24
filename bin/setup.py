#!/usr/bin/env python3
"""Builds the symbolic execution engine into build/."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.engine(os.path.join(check.VERIF, "build"))
print("engine ready")
