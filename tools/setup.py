#!/usr/bin/env python3
"""Checks that the toolchain works: parses every module and compiles the Java operators. Leaves nothing behind."""
import glob, os, shutil, subprocess, sys, tempfile
from run import SPEC, JAR, CM
d = tempfile.mkdtemp()
try:
    subprocess.run(['javac', '-cp', JAR, '-d', d, os.path.join(SPEC, 'java', 'F32.java')], check=True)
    bad = 0
    for m in sorted(glob.glob(os.path.join(SPEC, '*.tla'))):
        p = subprocess.run(['java', '-cp', f'{d}:{JAR}:{CM}', 'tla2sany.SANY', os.path.basename(m)], cwd=SPEC, capture_output=True, text=True)
        if p.returncode or 'Fatal' in p.stdout or 'Could not parse' in p.stdout:
            print(m, p.stdout[-1500:])
            bad += 1
    print('setup:', 'failed' if bad else 'ok')
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d)
