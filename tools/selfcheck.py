#!/usr/bin/env python3-vt
"""setup: verifies that the tools the checks use are present; nothing is built ahead of time"""
import shutil, sys
import z3
missing = [t for t in ('clang++-18', 'llvm-link-18', 'opt-18', 'g++') if not shutil.which(t)]
if missing: sys.exit('missing tools: %s' % missing)
print('ok z3', z3.get_version_string())
