#!/usr/bin/env python3
"""setup: nothing to compile ahead of time; every check builds what it needs from /repo. Verifies the tools exist."""
import shutil, sys
miss = [t for t in ('clang++', 'g++', 'c++filt', 'z3') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'ok')
sys.exit(1 if miss else 0)
