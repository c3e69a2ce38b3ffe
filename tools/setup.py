#!/usr/bin/env python3
"""Nothing to build: verifies that the analysis engine parses and links."""
import compileall
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # noqa: E402
reg = props.load()
print('engine ok: %d properties, %d obligations' % (len(reg), sum(len(v) for v in reg.values())))
