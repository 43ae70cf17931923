"""Checks that the tools the machinery needs are there (nothing to build)."""
import shutil, sys
import z3
for t in ('clang++', 'opt', 'g++'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
print('z3', z3.get_version_string())
