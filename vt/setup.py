#!/usr/bin/env python3
"""Builds what the checks use, so that a check of the same tree need not."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import registry

for v in registry.HARNESSES:
    try:
        print(v, B.build(v, registry.HARNESSES[v]))
    except B.BuildError as e:
        print(v, "does not build:", str(e)[-500:])
        sys.exit(1)
