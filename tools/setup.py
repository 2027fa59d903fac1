#!/usr/bin/env python3
"""Builds everything once and checks that the tools are there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

for what, variant in (('drv', 'asan'), ('drv', 'plain'), ('drv', 'tsan'), ('drv', 'msan'), ('drv', 'nouuid'), ('server', 'asan')):
    print(lib.build(what, variant))
for m in ('SmlTrace', 'MCGen', 'MCReader', 'SmlGenFile', 'SmlGenLine', 'SmlGenDzg', 'SmlGenServer', 'SmlServerTrace'):
    r = subprocess.run(['java', '-cp', lib.JAR, 'tla2sany.SANY', m + '.tla'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=lib.SPEC)
    if r.returncode or 'Semantic errors' in r.stdout:
        print(r.stdout)
        sys.exit(1)
    print(m, 'ok')
