"""C27 requirement groups and their checks (specs/Checkers.tla)."""
STEMS = ['foo', 'foobar', 'Foo', 'foo-1', 'foo.bar', 'bar', 'ba', 'x', 'foo_bar']
EXES = ['foo', 'foobar', 'foo-1', 'Foo', 'foo.exe', 'bar', 'ba', 'kpsewhich', 'python3.9', 'python3']
PIPS = ['click', 'click-plugins', 'regex', 'regex-foo', 'reg', 'jinja2', 'jinja2-time', 'python-slugify', 'python', 'aclick', 'lxml']


def name(n, rng, cat='', kind=''):
    i = [0]

    def walk(n):
        i[0] += 1
        n = dict(n, name='%s%d' % (n['k'], i[0]), low='', op='', ver=[], gap='')
        n['kids'] = [walk(k) for k in n['kids']]
        return n
    return walk(n)


def ver(rng):
    return [rng.choice([0, 1, 2, 10]) for _ in range(rng.randint(1, 3))]


def dep(rng, kind, cat, pips):
    d = dict(k='dep', av='', kids=[], op='', ver=[], gap='')
    if cat == 'executables':
        d['name'] = rng.choice(EXES)
    elif kind == 'python':
        d['name'] = rng.choice(PIPS)
        if rng.random() < .15:
            d['name'] = d['name'].title()
        if rng.random() < .55:
            d['op'], d['ver'], d['gap'] = rng.choice(['==', '>=', '<=', '<', '>', '!=']), ver(rng), rng.choice(['', '', ' '])
            for p in pips:
                if p['name'] == d['name'].lower():
                    if rng.random() < .4:       # near the installed version
                        d['ver'] = (p['ver'] + [0])[:rng.randint(1, 4)]
                    if p['suffix']:     # only releases are compared
                        d['op'], d['ver'] = '', []
    else:
        d['name'] = rng.choice(STEMS)
    d['low'] = d['name'].lower()
    return d


def group(rng, kind, cat, pips, nm, depth):
    kids, seen = [], set()
    for i in range(rng.randint(0 if depth < 2 else 1, 4)):
        if depth and rng.random() < .3:
            kids.append(group(rng, kind, cat, pips, '%s%d' % (nm[0], i), depth - 1))
        else:
            kids.append(dep(rng, kind, cat, pips))
    return dict(k=rng.choice(['any', 'all', 'opt']), av='', name=nm, kids=kids, low='', op='', ver=[], gap='')


def check(rng):
    kind = rng.choice(['python', 'python', 'pdf', 'image'])
    pips = []
    for p in rng.sample(PIPS, rng.randint(0, 6)):
        v = ver(rng)
        s = rng.choice(['', '', '', 'rc1', '.post1', '.dev0', '+local.1', 'b2'])
        pips.append(dict(name=p, shown=p if rng.random() < .7 else p.title(), ver=v, text='.'.join(map(str, v)) + s, suffix=s))
    w = dict(exes=sorted(rng.sample(EXES, rng.randint(0, 6))), decoys=sorted(rng.sample(EXES[:7], 3)), pips=pips,
             tex=sorted(s + e for s in STEMS for e in ('.sty', '.cls', '.tfm', '') if rng.random() < .3))
    if kind == 'pdf' and rng.random() < .8 and 'kpsewhich' not in w['exes']:
        w['exes'].append('kpsewhich')
    w['decoys'] = [d for d in w['decoys'] if d != 'kpsewhich']
    cats = dict(python=['executables', 'packages'], pdf=['executables', 'packages', 'fonts', 'classes'], image=['executables'])[kind]
    cats = rng.sample(cats, rng.randint(1, len(cats)))
    t = dict(k='all', av='', name='top', low='', op='', ver=[], gap='', kids=[group(rng, kind, c, pips, c, 2) for c in cats])
    return dict(op='check', kind=kind, world=w, tree=t, twice=rng.random() < .2)


def run(ctx):
    r = ctx.tlc('Checkers', consts=dict(MaxKids=2), init='GInit', next='GNext', inv=['Monotone', 'Settled', 'Emit'], workers=8)
    ctx.notes['groups'] = len(r['printed'])
    ops = [dict(op='tree', tree=name(t, ctx.rng)) for t in r['printed']]
    ops += [check(ctx.rng) for _ in range(ctx.n(1500, 20000))]
    ctx.rng.shuffle(ops)
    cases = [dict(ops=ops[i:i + 10]) for i in range(0, len(ops), 10)]
    res = ctx.drive('checkers', cases)
    traces = [r for c, r in ctx.settle(cases, res, 'checks')]
    ctx.sample(traces[-1])
    ctx.validate('Checkers', traces, 'checkers', consts=dict(MaxKids=2), workers=8)
    ctx.assume('release versions are compared number by number, missing ones as 0; pre-releases and local versions only with packages asked for without a version',
               "hyphens and underscores in package names are not interchanged; kpsewhich and the package listing are stand-ins of the check's own")
