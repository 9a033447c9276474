#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs itself."""
import shutil
import sys

import kani

missing = [tool for tool in ("cargo", "cargo-kani", "cbmc", "goto-instrument", "goto-cc") if not shutil.which(tool, path=kani.ENV["PATH"])]
print("missing: " + ", ".join(missing) if missing else "every tool is there")
sys.exit(1 if missing else 0)
