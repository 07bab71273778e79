#!/usr/bin/env python3
"""Setup: checks that the tools the checks need are there (each check builds what it runs)."""
import shutil, sys
missing = [t for t in ("python3",) if not shutil.which(t)]
if not (shutil.which("clang++") or shutil.which("g++")):
    missing.append("clang++ or g++")
sys.exit("missing: " + ", ".join(missing) if missing else 0)
