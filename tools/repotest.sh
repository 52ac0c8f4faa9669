#!/bin/bash
# repotest.sh DIR OUT.json: runs the stable tests of a copy of the repository (DIR) on its own sources.
set -e
DIR=$(realpath "$1"); OUT=$(realpath -m "$2")
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH=$DIR/src
WORK=$(mktemp -d); trap 'rm -rf "$WORK"' EXIT
cd "$DIR"
/opt/pvenv/bin/python -c "import disseminate; assert disseminate.__file__.startswith('$DIR'), disseminate.__file__"
taskset -c ${CPU:-0} /opt/pvenv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --basetemp="$WORK/pytest" --junitxml="$WORK/junit.xml" > "$WORK/log" 2>&1 || true
tail -1 "$WORK/log"
/usr/bin/python3 /opt/vp/results.py "$OUT" "junit:$WORK/junit.xml" >/dev/null
RT=$WORK python3 - "$OUT" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
import os, re, subprocess
def ok(t):
    # a test that failed under load is run again on its own
    c, n = t.split('::')
    parts = c.split('.')
    k = len(parts)
    while k and not os.path.isfile('/'.join(parts[:k]) + '.py'):
        k -= 1
    node = '/'.join(parts[:k]) + '.py::' + '::'.join(parts[k:] + [n])
    return subprocess.run(['/opt/pvenv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--basetemp', os.environ['RT'] + '/again', node],
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
m = [t for t in b['stable'] if t not in set(o['passed'])]
if len(m) <= 4:
    m = [t for t in m if not ok(t)]
print('stable tests not passing:', m); sys.exit(1 if m else 0)
P
