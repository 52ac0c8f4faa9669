"""C23 where outputs are placed and the URLs between them (specs/Paths.tla)."""
import os

NAMES = ['a', 'b', 'ch 1', 'c#d', 'e?f', '50%', 'é', 'a%20c', 'x&y', "it's, z", 'q"r', 'p:q', '(1)', 'x=1;y', '~t', 'a_b^c', 'a+b', 'm.n', '.dot', 'html', 'tex', 'figures', 'mediate', '<k>', 'ü$!', "''", 'a--b', '1', '*s*', 'a\\b', '[v]', '|']
EXTS = ['.png']


# directories of outputs next to the project root
OUTPUTS = [['html'], ['tex'], ['xhtml'], ['txt'], ['src'], ['my src'], ['é'], ['a#b']]


def case(r):
    taken = set()
    root = r.choice(['src', 'my src', 'é', 'a#b'])
    base = '/w/p/q/' + root
    # outputs are placed next to a folder src, and in other folders
    names = r.sample([n for n in NAMES if root == 'src' or n not in ('html', 'tex')], r.randint(2, 8))

    def full(f):
        return os.path.normpath(os.path.join(base, f))

    def rel(f, doc):
        return os.path.relpath(full(f), os.path.dirname(full(doc)))
    folder = lambda: '/'.join(r.choice(names) for _ in range(r.choice([0, 0, 1, 1, 2])))

    def place(ext, up):
        while True:
            d = folder()
            f = (d + '/' if d else '') + r.choice(names) + ext
            if up and r.random() < .2:
                f = '../' * r.randint(1, 2) + f
            k = full(f)
            if k in taken or os.path.basename(k).startswith('-') or f.startswith('..') and k.split('/')[4:5] in OUTPUTS:
                continue
            if any(x.startswith(k + '/') or k.startswith(x + '/') for x in taken):
                continue
            taken.add(k)
            return f
    first = r.choice(['r.dm', r.choice(names) + '.dm'])
    taken.add(full(first))
    order = [first]
    for _ in range(r.randint(1, 5)):
        order.append(place('.dm', True))
    files = [place(r.choice(EXTS), True) for _ in range(r.randint(1, 4))]
    targets = ['html'] + r.sample(['tex', 'xhtml', 'txt'], r.randint(0, 3))
    text, refs = {}, {}
    anchor = {n: 'l%d' % i for i, n in enumerate(order)}
    for n in order:
        body, refs[n] = [], []
        for _ in range(r.randint(0, 5)):
            if r.random() < .5:
                f = r.choice(files)
                # from the folder of the document, or from the root if no other file is found first
                here, top = rel(f, n), f
                other = os.path.normpath(os.path.join(os.path.dirname(full(n)), top)) in taken - {full(f)}
                path = here if other or '/' in os.path.dirname(full(n)) and r.random() < .6 else top
                body.append('@img{%s}' % path)
                refs[n].append(dict(kind='file', src=f))
            else:
                o = r.choice([x for x in order if x != n])
                body.append('@ref{%s}' % anchor[o])
                refs[n].append(dict(kind='doc', src=o))
        head = ['targets: ' + ', '.join(targets)]
        if n == first:
            head += ['relative_links: False'] if r.random() < .2 else []
            head += ['include:'] + ['  ' + rel(x, first) for x in order[1:]]
        text[n] = '---\n%s\n---\n@section[id=%s]{S}\n\ntext %s\n' % ('\n'.join(head), anchor[n], ' and '.join(body))
    ids = {f: 'file %d' % i for i, f in enumerate(files)}
    return dict(docs=text, order=order, first=first, files=ids, refs=refs, targets=[t for t in targets if t != 'txt'], root=root)


def by_design():
    def one(key, files, target='html'):
        return dict(key=key, build=False, docs={'a.dm': '---\ntargets: %s\n---\n%s\n' % (target, ' '.join('@img{%s}' % f for f in files))}, order=['a.dm'], first='a.dm',
                    files={f: f for f in files}, refs={'a.dm': [dict(kind='file', src=f) for f in files]}, targets=[target], root='src')
    return [one('media-twice', ['x.png', 'media/x.png']), one('same-stem', ['x.pdf', 'x.svg'])]


def run(ctx):
    r = ctx.tlc('Paths', consts=dict(Depth=ctx.n(3, 4)), init='Init', next='Next', inv=['Contained', 'Distinct', 'RoundTrip'], workers=8)
    ctx.notes['placements'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(130, 2500))] + by_design()
    res = ctx.drive('paths', cases, case_timeout=60)
    traces = [dict(x, key=c.get('key')) if 'key' in c else x for c, x in ctx.settle(cases, res, 'projects')]
    ctx.sample(traces[0])
    ctx.validate('Paths', traces, 'projects', consts=dict(Depth=0), workers=8)
    ctx.assume('files are named relative to the document or the project root; outputs are looked at for html, xhtml and tex',
               'LaTeX limits the characters of file names itself')
