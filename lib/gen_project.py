"""Random histories of projects in the abstract form of specs/Project.tla."""
import collections, copy, os

DIRS = [[], [], ['sub'], ['sub', 'deep'], ['other']]
LEVELS = ['part', 'chapter', 'section', 'subsection', 'subsubsection']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa']
TARGETS = ['html', 'tex', 'txt', 'xhtml']
TOCS = ['all headings expanded', 'all headings', 'headings', 'heading', 'all headings abbreviated', 'all documents', 'documents',
        'all documents abbreviated']
RESET_KINDS = ['chapter', 'section', 'subsection', 'figure', 'table', 'heading', 'caption', 'part']

DEFAULT = dict(nfiles=(2, 5), items=(0, 5), edits=(2, 6), captions=.25, refs=.2, tocs=.0, titles=.3, shorts=.2, targets=.25, vals=.3, resets=.15,
               inact=.08, toc=.15, nolabel=.05, ids=.4, faults=.0, dupl=.0, badgraph=.25, unknown=.05, missing=.0, hshort=.15, restart=.05, multi=.4,
               none=.1, removal=.2, kinds=('head', 'cap', 'ref'))


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(DEFAULT)
        self.o.update(kw)

    def p(self, name):
        return self.r.random() < self.o[name]

    def blank(self, path):
        stem = '/'.join(path)
        return dict(dir=path[:-1], base=path[-1], slug='-'.join(path) + '-dm', stem=stem, incl=[], title='', hastitle=False, short='', tkey='',
                    tg=[], vals=[], resets=[], hasinact=False, inact=[], toc='', items=[], fault='')

    def text(self):
        return ' '.join(self.r.choice(WORDS) for _ in range(self.r.randint(1, 2))) + ' %d' % self.r.randint(1, 40 if not self.p('dupl') else 2)

    def item(self, all_ids):
        r = self.r
        x = r.random()
        if x < self.o['refs'] and all_ids:
            d, i = r.choice(all_ids)
            if self.p('unknown'):
                i = 'nowhere'
            return dict(t='ref', id=i, doc=d if r.random() < .5 else '', wrap=r.choice(['', '', 'b', 'i']))
        if x < self.o['refs'] + self.o['captions']:
            return dict(t='cap', kind=r.choice(['figure', 'figure', 'table']), id=self.newid(), text=self.text(), short='', tag=r.choice(['figure', 'fig', 'marginfig']))
        if x < self.o['refs'] + self.o['captions'] + self.o['tocs']:
            return dict(t='toc', words=r.choice(TOCS))
        lv = r.choice(LEVELS if r.random() < .5 else LEVELS[1:3])
        if r.random() < .05:
            lv = 'title'
        text = self.text()
        short = self.text() if self.p('hshort') else ''
        return dict(t='head', lv=lv, id=self.newid() if self.p('ids') else '', text=text, short=short, slug=(short or text).replace(' ', '-'),
                    nolabel=self.p('nolabel'), quote=r.random() < .3)

    def newid(self):
        if self.p('dupl') or self.r.random() < .12:
            return 'id%d' % self.r.randint(1, 3)
        self.idn = getattr(self, 'idn', 0) + 1
        return self.r.choice(['id%d', 'sec:x%d', 'my-id.%d', 'f_%d']) % (100 + self.idn)

    def ids(self, files):
        out = []
        for p, f in files.items():
            out.append((p, 'doc:' + f['slug']))
            for i in f['items']:
                if i['t'] in ('head', 'cap') and i['id']:
                    out.append((p, i['id']))
                elif i['t'] == 'head':
                    out.append((p, {'title': 'title', 'part': 'part', 'chapter': 'ch', 'section': 'sec', 'subsection': 'subsec', 'subsubsection': 'subsubsec'}[i['lv']] + ':' + f['slug'] + '-' + i['slug']))
        return out

    def items(self, files):
        ids = self.ids(files)
        return [self.item(ids) for _ in range(self.r.randint(*self.o['items']))]

    def header(self, f):
        r = self.r
        f['hastitle'] = self.p('titles')
        f['title'] = self.text() if f['hastitle'] else ''
        f['short'] = self.text() if self.p('shorts') else ''
        if self.p('targets'):
            f['tkey'] = r.choice(['target', 'targets'])
            f['tg'] = [r.choice(TARGETS) for _ in range(r.randint(1, 3))]
            if self.p('none'):
                f['tg'].insert(r.randint(0, len(f['tg'])), 'none')
                if r.random() < .5:
                    f['tg'] = ['none']
            if r.random() < .5 and 'html' not in f['tg'] and 'none' not in f['tg']:
                f['tg'].append('html')
            f['dots'] = [n for n in f['tg'] if r.random() < .3 and n != 'none']
            f['tsep'] = r.choice([', ', ',', '; ', ' , '])
        else:
            f['tkey'], f['tg'] = '', []
        f['vals'] = [dict(k='key%d' % i, v=r.choice(['v%d' % r.randint(0, 5), 'two words', '7'])) for i in range(4) if self.p('vals')]
        f['resets'] = [dict(k=k, add=r.sample([x for x in RESET_KINDS if x != k], r.randint(1, 2))) for k in r.sample(RESET_KINDS, 2) if self.p('resets')]
        f['hasinact'] = self.p('inact')
        f['inact'] = r.sample(LEVELS[1:], r.randint(1, 2)) if f['hasinact'] else []
        f['toc'] = r.choice(TOCS) if self.p('toc') else ''
        f['ikey'] = r.choice(['include', 'include', 'includes'])
        f['inline'] = r.random() < .3

    def rel(self, f, path):
        """path (segments with .dm) relative to the directory of f, in some spelling"""
        d = f['dir']
        c = 0
        while c < len(d) and c < len(path) - 1 and d[c] == path[c]:
            c += 1
        q = ['..'] * (len(d) - c) + path[c:]
        if self.r.random() < .1:
            q = ['.'] + q
        if self.r.random() < .06 and d:
            q = ['..', d[-1]] + q
        return q

    def tree(self, files, order):
        """gives the files include lists: usually a tree in the given order, sometimes with loops and repeats"""
        names = list(order)
        for p in names:
            files[p]['incl'] = []
        for i, p in enumerate(names[1:], 1):
            par = files[names[self.r.randrange(0, i)]]
            par['incl'].append(self.rel(par, p.split('/')))
        if self.p('badgraph'):
            for _ in range(self.r.randint(1, 4)):
                par = files[self.r.choice(names)]
                par['incl'].insert(self.r.randint(0, len(par['incl'])), self.rel(par, self.r.choice(names).split('/')))
        if self.p('missing'):
            par = files[self.r.choice(names)]
            par['incl'].insert(self.r.randint(0, len(par['incl'])), self.rel(par, [self.r.choice(['gone.dm', 'lost.dm'])]))

    def reparent(self, files, root):
        """moves one included file to another place"""
        names = list(files)
        n = self.r.choice(names)
        for f in files.values():
            for k, q in enumerate(f['incl']):
                if norm(f['dir'] + q) == n and self.r.random() < .7:
                    del f['incl'][k]
                    break
        par = files[self.r.choice(names)]
        par['incl'].insert(self.r.randint(0, len(par['incl'])), self.rel(par, n.split('/')))

    def history(self):
        r = self.r
        n = r.randint(*self.o['nfiles'])
        names = ['a.dm']
        while len(names) < n:
            p = '/'.join(r.choice(DIRS) + [r.choice('bcdefg') + '.dm'])
            if p not in names:
                names.append(p)
        files = {}
        for p in names:
            files[p] = self.blank(p[:-3].split('/'))
            self.header(files[p])
        for p in names:
            files[p]['items'] = self.items(files)
        for p in names:
            for i in files[p]['items']:
                if i['t'] == 'ref' and r.random() < .5:
                    d, k = r.choice(self.ids(files))
                    i.update(id=k, doc=d if r.random() < .5 else '')
        self.tree(files, names)
        steps = [dict(op='write', p=p, f=copy.deepcopy(f)) for p, f in files.items()]
        steps.append(dict(op='load'))
        spare = {}
        dt = r.choice([10, 10, .3, .01])
        for _ in range(r.randint(*self.o['edits'])):
            for _ in range(1 if not self.p('multi') else r.randint(2, 3)):
                self.edit(files, spare, steps)
            for s in steps:
                if s['op'] == 'write':
                    s.setdefault('dt', '%g' % dt)
            steps.append(dict(op='load', restart=True) if self.p('restart') else dict(op='load'))
        return dict(root=['a.dm'], steps=steps)

    def edit(self, files, spare, steps):
        r = self.r
        before = copy.deepcopy(files)
        k = r.random()
        p = r.choice(list(files))
        f = files[p]
        if f['fault'] and r.random() < .7:
            f['fault'] = ''
        elif self.p('faults'):
            f['fault'] = r.choice(['big', 'markup'])
        elif k < self.o['removal'] and len(files) > 1:
            q = r.choice([x for x in files if x != 'a.dm'])
            if spare and r.random() < .5:
                q = r.choice(list(spare))
                files[q] = spare.pop(q)
                steps.append(dict(op='write', p=q, f=copy.deepcopy(files[q])))
                par = files[r.choice(list(files))]
                par['incl'].insert(r.randint(0, len(par['incl'])), self.rel(par, q.split('/')))
            else:
                spare[q] = files.pop(q)
                if not (self.p('missing') or r.random() < self.o['missing']):
                    for g in files.values():
                        g['incl'] = [x for x in g['incl'] if norm(g['dir'] + x) != q]
                steps.append(dict(op='remove', p=q))
        elif k < self.o['removal'] + .25:
            self.header(f)
        elif k < self.o['removal'] + .5:
            f['items'] = self.items(files)
            if f['items'] and r.random() < .3:
                r.shuffle(f['items'])
        elif k < self.o['removal'] + .7:
            self.reparent(files, 'a.dm')
        elif k < self.o['removal'] + .75:
            r.shuffle(f['incl'])
        else:
            if f['items']:
                i = r.randrange(len(f['items']))
                if r.random() < .4:
                    del f['items'][i]
                else:
                    f['items'][i] = self.item(self.ids(files))
        # rewrite the files that changed, and sometimes one that did not
        for q, g in files.items():
            if q in before and g != before[q] or (q == p and r.random() < .1):
                steps.append(dict(op='write', p=q, f=copy.deepcopy(g)))


def norm(q):
    out = []
    for s in q:
        if s in ('.', ''):
            continue
        if s == '..' and out:
            out.pop()
        else:
            out.append(s)
    return '/'.join(out)


def check(ctx, want, n, label, build=False, extra=(), **kw):
    """histories -> real code -> trace validation against specs/Project.tla"""
    cases = []
    for i in range(n):
        c = Gen(ctx.rng, **kw).history()
        c['want'] = list(want)
        if build:
            for s in c['steps']:
                if s['op'] == 'load':
                    s['build'] = True
        cases.append(c)
    cases += list(extra)
    res = ctx.drive('project', cases, case_timeout=60)
    traces = []
    for c, r in ctx.settle(cases, res, label):
        traces.append(dict(root=c['root'], steps=r['steps']))
    ctx.sample(traces[0] if traces else None)
    if traces:
        bad = ctx.validate('Project', traces, label, consts=dict(NF=1, MaxIncl=0), workers=8, heap='8g')
    fails = sum(1 for t in traces for s in t['steps'] if s['op'] == 'load' and s['obs']['err'])
    loads = sum(1 for t in traces for s in t['steps'] if s['op'] == 'load')
    ctx.coverage_extra.setdefault('loads', 0)
    ctx.coverage_extra['loads'] += loads
    ctx.coverage_extra['failing_loads'] = ctx.coverage_extra.get('failing_loads', 0) + fails
    if os.environ.get('VERIF_TIMING'):
        print('  loads', loads, 'failing', collections.Counter(s['obs']['err'] for t in traces for s in t['steps'] if s['op'] == 'load'))
    return traces
