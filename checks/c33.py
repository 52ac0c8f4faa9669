"""C33 the projects below a folder (specs/Projects.tla)."""
import json
FOLDERS = ['', 'p', 'p/src', 'q', 'q/src', 'p/r', 'p/r/src', 'q/x y', 'src', 'p.q', 'P', 'src/p', 'q/src/src', 'p/src2']
NAMES = ['a', 'b', 'main', 'a.b', 'x y', 'A', 'index', 'src']
SUBS = ['', 's/', 's/t/', 'html/', 'src/']


class Tree:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.docs = {}
        self.bases = []
        for f in r.sample(FOLDERS, r.randint(1, 4)):
            # also folders below others: these aren't bases then
            self.bases.append(f)
            top = r.sample(NAMES, r.choice([1, 1, 2, 2, 3, 4]))
            docs = [self.new(f, n) for n in top]
            free = [d for d in docs]
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                sub = r.choice(SUBS)
                n = r.choice(NAMES)
                if (f, sub + n) not in [(d['base'], d['rel']) for d in docs]:
                    docs.append(self.new(f, sub + n))
            # each document is included by one other at most; circles among the first are possible
            for d in docs:
                if d['rel'] in top:
                    if r.random() < .4:
                        o = r.choice([x for x in docs if x['rel'] in top])
                        if o is not d or r.random() < .3:
                            o['incl'].append(d['rel'] + '.dm')
                elif r.random() < .7:
                    # documents name the files they include from their own folder
                    o = r.choice([x for x in docs if x is not d and d['rel'].startswith(x['rel'][:x['rel'].rfind('/') + 1])])
                    o['incl'].append(d['rel'] + '.dm')

    def tok(self):
        self.n += 1
        return 'w%dw' % self.n

    def new(self, base, rel):
        d = dict(base=base, rel=rel, incl=[], tok=self.tok(), entry=self.tok(), targets=self.r.choice([['html'], ['txt'], ['html', 'txt'], ['tex', 'html'], ['xhtml']]))
        self.docs[(base, rel)] = d
        return d

    def texts(self):
        out = {}
        included = {(d['base'], i) for d in self.docs.values() for i in d['incl'] if i != d['rel'] + '.dm'}
        for d in self.docs.values():
            p = (d['base'] + '/' if d['base'] else '') + d['rel'] + '.dm'
            h = []
            if (d['base'], d['rel'] + '.dm') not in included:
                h += ['targets: ' + ', '.join(d['targets']), "@vv: " + d['entry']]
            if d['incl']:
                h += ['include:'] + ['  ' + i[d['rel'].rfind('/') + 1:] for i in d['incl']]
            out[p] = ('---\n' + '\n'.join(h) + '\n---\n' if h else '') + 'text %s and @vv{}\n' % d['tok']
        return out

    def state(self):
        out = []
        for d in self.docs.values():
            p = ([x for x in d['base'].split('/') if x]) + (d['rel'] + '.dm').split('/')
            out.append(dict(path=p, stem=p[-1][:-3], incl=[i.split('/') for i in d['incl']], tok=d['tok'], entry=d['entry'], targets=d['targets']))
        return out


def sensible(t):
    """left out: documents of a base that belong to two projects, and documents below another base (these are just not included)"""
    seen = set()
    for d in t.docs.values():
        for i in d['incl']:
            k = (d['base'], i)
            if k in seen:
                return False
            seen.add(k)
    # no circles longer than a document that includes itself: their entries would depend on the root chosen
    for d in t.docs.values():
        x, path = d, []
        while x is not None:
            if x['rel'] in path:
                return len(path) == 0
            path.append(x['rel'])
            up = [y for y in t.docs.values() if y['base'] == x['base'] and x['rel'] + '.dm' in y['incl'] and y is not x]
            x = up[0] if up else None
    # the same file from two of the folders given
    paths = [tuple(d['path']) for d in t.state()]
    return len(set(paths)) == len(paths)


def session(r):
    while True:
        t = Tree(r)
        if sensible(t):
            break
    steps, was = [], {}
    for k in range(r.choice([1, 1, 2, 3])):
        if k:
            d = r.choice(list(t.docs.values()))
            d[r.choice(['tok', 'entry'])] = t.tok()
        now = t.texts()
        b = r.choice(t.bases + ['', ''])
        while r.random() < .3 and b:
            b = '/'.join(b.split('/')[:-1])
        f = ''
        if r.random() < .25:
            d = r.choice([d for d in t.docs.values() if '/' not in d['rel']])
            included = any(d['rel'] + '.dm' in x['incl'] for x in t.docs.values() if x['base'] == d['base'] and x is not d)
            if not included:
                b, f = d['base'], d['rel'] + '.dm'
        out = r.choice(['', '', 'out%d' % k, 'out'])
        form = r.choice(['abs', 'rel', 'cwd', 'up', 'slash'])
        cwd, args = '', []
        if form == 'cwd' and b.split('/')[-1] != 'src' and not f:
            cwd = b
            if out:
                args += ['-o', 'TOP/' + out]
        else:
            p = '/'.join(x for x in (b, f) if x)
            p = {'abs': 'TOP/' + p, 'rel': p or '.', 'cwd': './' + p, 'slash': (p if f else p + '/') if p else './', 'up': 'dd/../' + p}[form].rstrip('/' if form == 'abs' else ' ')
            args = [r.choice(['-i', '--in-path']), p]
            if out:
                args += [r.choice(['-o', '--out-dir']), r.choice(['TOP/', '', './']) + out]
        if r.random() < .15:
            args.append('-p')
        steps.append(dict(files={p: x for p, x in now.items() if was.get(p) != x}, dirs=['dd'] + ([out] if out else []) + ([b] if b else []), cwd=cwd or '.', args=args, docs=t.state(), out=[out] if out else [], file=f,
                          **{'from': [x for x in b.split('/') if x]}))
        was = now
    return dict(steps=steps)


def run(ctx):
    for n in (3,):
        r = ctx.tlc('Projects', consts=dict(N=n), init='Init', next='Next', inv=['Found', 'Unique'], workers=8)
        ctx.notes['include relations of %d documents' % n] = r['distinct']
    cases = [session(ctx.rng) for _ in range(ctx.n(160, 3000))]
    res = ctx.drive('projects', cases, case_timeout=120)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'builds')]
    ctx.sample(traces[0])
    ctx.validate('Projects', traces, 'builds', consts=dict(N=0), workers=8)
    ctx.assume('an edited file has a later modification time than its earlier version')
