"""C16 matched updates of contexts (specs/Context.tla)."""
import json

KEYS = ['a', 'b', 'cc', 'own', 'kept', 'rep', 'rept', 'k']
TEXTS = ['x', '120', ' -3 ', '+40', '1.5', '2.25', 'true', 'False', ' TRUE ', 'yes', '', 'a, b', 'a; b, c', 'a\nb, c\nd', 'k: v', 'k: 1\nm: 2', 'k:\n  a: 7\n  b: x, y', 'a:\n  - 1', '0', '1x3', 'one two', "'q'",
         'b: true\ncc: 1.5', 'a,b,c', ' spaced ', 'k: a; b', '3 4', '--1']


def S(s):
    return dict(t='str', v=list(s))


def val(rng, depth=0):
    k = rng.random()
    if k < .3:
        return S(rng.choice(TEXTS))
    if k < .4:
        return dict(t='int', v=rng.randint(-5, 20))
    if k < .5:
        return dict(t='bool', v=rng.random() < .5)
    if k < .57:
        return dict(t='float', v=rng.choice([150, 0, -225, 300, 10]))
    if k < .72 or depth > 2:
        return dict(t='list', v=[nested(rng, depth + 1) if rng.random() < .25 and depth < 2 else S(rng.choice('pqrst')) for _ in range(rng.randint(0, 3))])
    if k < .82:
        return dict(t='set', v=[list(x) for x in rng.sample('uvwx', rng.randint(0, 2))])
    return dict(t='dict', v=ents(rng, depth + 1, rng.randint(0, 3)))


def nested(rng, depth):
    v = val(rng, depth)
    if v['t'] in ('list', 'dict') and len(v['v']) == 2:      # not a pair: those can be read as entries of a mapping
        v['v'].pop()
    return v if v['t'] in ('list', 'dict', 'str') else S('n')


def ents(rng, depth, n):
    return [dict(k=list(x), v=val(rng, depth)) for x in sorted(rng.sample(KEYS, n))]


def history(rng):
    ops, names, kinds = [], [], {}
    for i in range(rng.randint(2, 4)):
        n = 'c%d' % i
        ops.append(dict(op='new', name=n, parent=rng.choice(names + ['']) if names else '', init=ents(rng, 0, rng.randint(1, 4))))
        names.append(n)
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        n = rng.choice(names)
        if k < .45:
            src = rng.choice(names) if rng.random() < .4 else ''
            if src == n:
                src = ''
            ops.append(dict(op='update', name=n, src=src, changes=[] if src else ents(rng, 0, rng.randint(1, 4)), some=rng.random() < .2,
                            keys=[list(x) for x in rng.sample(KEYS, rng.randint(0, 4))], over=rng.random() < .85))
        elif k < .62:
            load = rng.random() < .5
            lines = ['%s: %s' % (x, rng.choice([t for t in TEXTS if '\n' not in t])) + rng.choice(['', '', '\n  sub: 1\n  k: x, y', '\n  p1x\n  p2x']) for x in rng.sample(KEYS, rng.randint(1, 4))]
            t = '\n'.join(lines)
            if load and rng.random() < .6:
                t = '---\n' + t + '\n---\nbody: x\n'
            ops.append(dict(op='text', name=n, text=list(t), load=load, over=rng.random() < .85))
        elif k < .77:
            ops.append(dict(op='reset', name=n))
        elif k < .85:
            f = 'f%d' % len(ops)
            ops.append(dict(op='filter', name=f, src=n, keys=[list(x) for x in rng.sample(KEYS, rng.randint(1, 5))]))
        else:
            ops.append(dict(op='poke', name=n, key=list(rng.choice(KEYS)), text=list(rng.choice('YZ'))))
    return ops


def mixed(o, c):
    """a set meeting a list of other things than texts"""
    if o['t'] == 'dict' and c['t'] == 'dict':
        return any(e['k'] == f['k'] and mixed(e['v'], f['v']) for e in o['v'] for f in c['v'])
    return o['t'] == 'set' and c['t'] == 'list' and any(i['t'] != 'str' for i in c['v'])


def run(ctx):
    r = ctx.tlc('Context', init='GInit', next='GNext', inv=['TypeKept', 'Grows', 'SameTypeWins', 'Emit'], workers=8)
    ctx.notes['pairs'] = len(r['printed'])
    cases = []
    # every pair under an ordinary key and under a key whose values replace
    for o, c in r['printed']:
        if mixed(o, c):
            continue
        for key in ('a', 'rep'):
            cases.append(dict(ops=[dict(op='new', name='c0', parent='', init=[dict(k=list(key), v=o)]), dict(op='new', name='c1', parent='', init=[dict(k=list(key), v=c)]),
                                   dict(op='update', name='c0', src='c1', changes=[], some=False, keys=[], over=True)]))
    if ctx.quick:
        cases = ctx.rng.sample(cases, 1600)
    for _ in range(ctx.n(1200, 15000)):
        cases.append(dict(ops=history(ctx.rng)))
    res = ctx.drive('context', cases)
    traces = [r for c, r in ctx.settle(cases, res, 'context histories')]
    ctx.sample(traces[-1])
    ctx.validate('Context', traces, 'context', workers=8)
    ctx.assume('left open: a number or boolean meeting a setting of another of these types; a mapping meeting a list or set',
               'decimal texts of up to two places')
