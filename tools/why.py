#!/usr/bin/env python3
"""why.py <ID> [n]: explains the n-th violation of the last run of a project check."""
import json, sys
sys.path[:0] = ['/verif/drivers']
H = __file__.rsplit('/', 2)[0]
d = json.load(open('%s/evidence/%s.replay.json' % (H, sys.argv[1])))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
v = d[n]
print(len(d), 'violations;', v['what'])
x = v['data']
if 'steps' not in x['case'] or 'root' not in x['case']:
    print(json.dumps(x, indent=1)[:6000])
    sys.exit()
def short(f):
    return {k: w for k, w in f.items() if w not in ('', [], False) and k not in ('base', 'stem', 'slug')}
files = {}
k = 0
for s in x['case']['steps'][:x.get('step', 10**6)]:
    k += 1
    if s['op'] == 'write':
        print(k, 'write', s['p'], json.dumps(short(s['f']))[:500])
    elif s['op'] == 'remove':
        print(k, 'remove', s['p'])
    else:
        print(k, 'load', {a: s.get(a) for a in ('restart', 'build') if s.get(a)}, s.get('obs', {}).get('err'))
if 'error' in x:
    print(x['error'][-1500:])
if 'event' in x:
    o, e = x['event']['obs'], x['expect']
    for dd in o.get('docs', []):
        dd['vals'] = {z['k']: z['v'] for z in dd['vals']}
        dd['resets'] = {z['k']: z['v'] for z in dd['resets']}
    def srt(z):
        if isinstance(z, dict):
            return {a: srt(b) for a, b in z.items()} or []
        if isinstance(z, list) and z and all(isinstance(y, str) for y in z):
            return sorted(z)
        return [srt(y) for y in z] if isinstance(z, list) else z
    for q in ('docs', 'nav'):
        if q in o:
            o[q], e[q] = srt(o[q]), srt(e[q])
    for key in sorted(set(o) | set(e)):
        a, b = o.get(key), e.get(key)
        if a == b or a is None or b is None:
            continue
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (p, q) in enumerate(zip(a, b)):
                if p != q and json.dumps(p, sort_keys=True) != json.dumps(q, sort_keys=True):
                    print(key, i, '\n  SEEN', json.dumps(p, sort_keys=True)[:600], '\n  WANT', json.dumps(q, sort_keys=True)[:600])
        else:
            print(key, '\n  SEEN', json.dumps(a)[:1500], '\n  WANT', json.dumps(b)[:1500])
