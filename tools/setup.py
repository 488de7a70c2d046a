#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs from /repo's current tree. This only looks for the tools."""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'protoc', 'python3') if not shutil.which(t)]
print('missing tools:', missing or 'none')
sys.exit(1 if missing else 0)
