#!/usr/bin/env python3
"""setup_cmd: builds the executor from the committed files and /repo's tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    vlib.build("hx")
    vlib.build("hxq")
except vlib.ToolError as e:
    sys.exit(str(e))
