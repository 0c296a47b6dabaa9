#!/usr/bin/env python3
"""setup: the tools the checks need are present and /repo's tree can be translated"""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

for t in ('clang', 'opt', 'pkg-config'):
    if not (shutil.which(t) or shutil.which(t + '-18')):
        print('missing tool', t)
        sys.exit(1)
import build
b = build.Build()
print('translated %d units, %d functions' % (len(b.units), len(b.prog.funcs)))
