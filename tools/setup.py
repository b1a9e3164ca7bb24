#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks use are present."""
import shutil, subprocess, sys
for t in ('clang', 'clang++', 'gcc', 'python3', 'make'):
    if not shutil.which(t):
        print('missing tool:', t); sys.exit(1)
print('ok')
