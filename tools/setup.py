#!/usr/bin/env python3
"""Builds the MIR dumper and warms the dependency builds."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sa"))
import base
base.build_driver()
for c in ("base", "python_package", "wasm"):
    try:
        p = base.dump(c)
        print(c, len(p.fns), "functions")
    except base.Infra as e:
        print(c, "not dumped now:", str(e)[-300:])
