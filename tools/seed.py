#!/usr/bin/env python3
"""Plants and verifies seeded changes (development tool, not used by any check).
seed.py verify ID... : in scratch copies of /repo: patch applies, demo passes without and fails with it, stable tests pass, and reports which
check of the property catches it (runs the check with VERIF_REPO pointing at the patched copy)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def verify(args):
    k, i, tests, checks = args
    d = '%s/seeded/%s' % (H, i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-%s-' % i, dir='/tmp')
    res = [i, meta['property']]
    try:
        r = w + '/repo'
        shutil.copytree(os.environ.get('VERIF_REPO', '/repo'), r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        demo = w + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out = sh(['bash', demo + '/demo.sh'], r, timeout=300)
        res.append('demo on the unchanged tree: %s%s' % (rc, '' if rc == 0 else ' BAD ' + out[-800:]))
        rc, out = sh(['git', 'apply', d + '/patch.diff'], r)
        if rc:
            res.append('BAD patch does not apply: ' + out)
            return res
        rc, out = sh(['bash', demo + '/demo.sh'], r, timeout=300)
        res.append('demo with the change: %s%s' % (rc, '' if rc not in (0, 'timeout') else ' BAD'))
        if tests:
            rc, out = sh(['bash', H + '/tools/repotest.sh', r, w + '/o.json'], w, env=dict(CPU=str(k % 8)), timeout=2000)
            res.append('tests: ' + ('pass' if rc == 0 else 'BAD ' + out[-600:]))
        if checks:
            for c in [meta['property']] + [x for x in meta.get('also', [])]:
                rc, out = sh(['python3', H + '/check.py', c], H, env=dict(VERIF_REPO=r, VERIF_EVIDENCE=w + '/ev'), timeout=900)
                hit = rc == 1 and 'VIOLATION property=' in out
                res.append('check %s: %s' % (c, 'CAUGHT ' + [l for l in out.split('\n') if l.startswith('  ')][0][:110] if hit else 'MISSED rc=%s %s' % (rc, out[-300:])))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    tests, checks = '-t' not in sys.argv, '-c' not in sys.argv
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for r in ex.map(verify, [(k, i, tests, checks) for k, i in enumerate(ids)]):
            print('\n   '.join(str(x) for x in r), flush=True)
