#!/usr/bin/env python3
"""Checks that the tools the checks need are there; the checks themselves build what they need."""
import shutil, sys
missing = [t for t in ("clang++", "yasm") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
for t in ("qemu-x86_64", "llvm-symbolizer"):
    if not shutil.which(t):
        print("not found (optional): " + t)
print("ok")
