#!/usr/bin/env python3
"""Checks that the tools the checks need are here; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "clang", "clang++") if not shutil.which(t)]
if missing: print("missing tools: " + " ".join(missing)); sys.exit(1)
print("ready")
