#!/usr/bin/env python3
"""Nothing to compile: checks that the tools the framework needs are there and that the specifications parse."""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
import vf
d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    for f in sorted(os.listdir(H + '/specs')):
        shutil.copy(H + '/specs/' + f, d)
    mods = sorted(f for f in os.listdir(d) if f.endswith('.tla'))
    p = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-cp', vf.JARS, 'tla2sany.SANY'] + mods, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = p.returncode or '*** Errors' in p.stdout or 'Parse Error' in p.stdout or 'Fatal' in p.stdout
    if bad:
        print(p.stdout[-3000:])
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
