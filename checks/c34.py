"""C34 images are converted to what the targets can show (specs/Images.tla)."""
TOOLS = ['pdf2svg', 'convert', 'rsvg-convert', 'pdf-crop-margins', 'asy', 'pdflatex']
FILES = ['p.pdf', 'sub/p.pdf', 'x y.pdf', 'r.png', 's.tif', 'u.tiff', 't.asy', 'sub/t.asy', 'q.svg', 'sub/q.png', 'p.v1.pdf']
TARGETS = ['html', 'xhtml', 'tex']
NONE = {t: '' for t in TARGETS}


def marked(r, values, name):
    """An option for all targets or some, and its attributes."""
    x = r.random()
    if x < .65:
        return dict(NONE), ''
    if x < .85:
        v = r.choice(values)
        return {t: v for t in TARGETS}, '%s=%s' % (name, v)
    a, b = r.sample(values, 2)
    if x < .93:
        return {t: a if t == 'html' else '' for t in TARGETS}, '%s.html=%s' % (name, a)
    return {t: a if t == 'xhtml' else b for t in TARGETS}, '%s.xhtml=%s %s=%s' % (name, a, name, b)


class Project:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.files = {f: self.word() for f in r.sample(FILES, r.randint(3, len(FILES)))}
        self.opts = {f: self.options(f) for f in FILES}
        self.targets = r.choice([['html'], ['html', 'tex'], ['xhtml'], ['html', 'xhtml', 'tex'], ['tex'], ['html', 'xhtml']])
        self.svg = 'tex' not in self.targets or r.random() < .06
        self.docs = {d: [self.item(d) for _ in range(r.randint(0, 4))] for d in ['a.dm'] + r.choice([[], ['sub/b.dm'], ['c.dm'], ['sub/b.dm', 'c.dm']])}

    def word(self):
        self.n += 1
        return 'k%d' % self.n

    def options(self, f):
        # one file has the same options everywhere: see known_findings
        scale, a = marked(self.r, ['2', '0.5', '1.5'], 'scale') if f.endswith(('pdf', 'asy')) else (dict(NONE), '')
        page, b = marked(self.r, ['2', '3', '11'], 'page') if f.endswith('pdf') else (dict(NONE), '')
        return scale, page, ' '.join(x for x in (a, b, self.r.choice(['', '', 'width=50%', 'width.html=20%', 'class=c'])) if x)

    def item(self, doc):
        r, x = self.r, self.r.random()
        files = [f for f in self.files if self.svg or not f.endswith('svg')]
        if x < .5 and files:
            f = r.choice(files)
            if doc.startswith('sub/') and 'sub/' + f in self.files:
                f = 'sub/' + f          # found first
            return dict(kind='file', file=f, tag='asy' if f.endswith('asy') and r.random() < .5 else 'img')
        if x < .7:
            scale, a = marked(r, ['2', '0.5'], 'scale')
            return dict(kind='asy', scale=scale, attr=a, text=r.choice(['k%d;' % r.randint(900, 902), self.word() + ';']))
        scale, a = marked(r, ['2', '3'], 'scale') if r.random() < .3 else (dict(NONE), '')
        return dict(kind='eq', name=r.choice(['eq', 'eq', 'term', 'termb']), bold=r.random() < .25, color=r.choice(['', '', 'red', 'blue']), env=r.choice(['', '', '', 'align']),
                    block=r.random() < .4, scale=scale, attr=a, text=r.choice(['y=k%d' % r.randint(900, 902), 'y=' + self.word()]))

    def text(self, doc):
        out = ['text']
        for i in self.docs[doc]:
            if i['kind'] == 'file':
                a = self.opts[i['file']][2]
                f = i['file']
                s = '@%s%s{%s}' % (i['tag'], '[%s]' % a if a else '', f[4:] if doc.startswith('sub/') and f.startswith('sub/') and f[4:] not in self.files else f)
            elif i['kind'] == 'asy':
                s = '@asy%s{%s}' % ('[%s]' % i['attr'] if i['attr'] else '', i['text'])
            else:
                a = ' '.join(x for x in ('bold' if i['bold'] else '', 'color=' + i['color'] if i['color'] else '', 'env=' + i['env'] if i['env'] else '', i['attr']) if x)
                s = '@%s%s{%s}' % (i['name'], '[%s]' % a if a else '', i['text'])
                if not i['block']:
                    s = 'with %s in it' % s
            out.append(s)
        head = []
        if doc == 'a.dm':
            head = ['targets: ' + ', '.join(self.targets)] + (['include:'] + ['  ' + d for d in self.docs if d != 'a.dm'] if len(self.docs) > 1 else [])
        return ('---\n' + '\n'.join(head) + '\n---\n' if head else '') + '\n\n'.join(out) + '\n'

    def image(self, i):
        base = dict(page=NONE, scale=NONE, bold=False, color='', env='', block=False, ext='', tag='', opts='')
        if i['kind'] == 'file':
            scale, page, opts = self.opts[i['file']]
            return dict(base, tag='img', ext=i['file'].rsplit('.', 1)[1], text=self.files[i['file']], scale=scale, page=page, opts=opts)
        if i['kind'] == 'asy':
            return dict(base, tag='asy', text=i['text'], scale=i['scale'])
        return dict(base, tag='eq', text=i['text'], scale=i['scale'], bold=i['bold'] or i['name'] == 'termb', color=i['color'], env=i['env'], block=i['block'])

    def texts(self):
        return dict(self.files, **{d: self.text(d) for d in self.docs})

    def step(self, files, fresh, tools):
        return dict(files=files, fresh=fresh, tools=tools, targets=self.targets, docs=[dict(doc=d, images=[self.image(i) for i in q]) for d, q in self.docs.items()])

    def edit(self):
        r, x = self.r, self.r.random()
        if x < .2:
            return
        if x < .5:
            f = r.choice(list(self.files))
            self.files[f] = self.word()
        elif x < .6:
            f = r.choice(list(self.files))
            self.opts[f] = self.options(f)
        else:
            d = r.choice(list(self.docs))
            q = self.docs[d]
            if q and r.random() < .4:
                q.pop(r.randrange(len(q)))
            elif q and r.random() < .3:
                q.append(q.pop(r.randrange(len(q))))
            elif len(q) < 5:
                q.insert(r.randint(0, len(q)), self.item(d))


def case(r):
    p = Project(r)
    tools = [t for t in TOOLS if r.random() < .985] if r.random() < .5 else TOOLS
    old, steps = {}, []
    for k in range(r.choice([1, 2, 2, 3, 4])):
        if k:
            p.edit()
            if r.random() < .3:
                p.edit()
        now = p.texts()
        steps.append(p.step({f: t for f, t in now.items() if old.get(f) != t}, k == 0 or r.random() < .3, tools))
        old = now
    return dict(tools=tools, steps=steps)


def shared(a, b):
    """One file with different options in one target."""
    i = dict(page=NONE, scale=NONE, bold=False, color='', env='', block=False, ext='pdf', tag='img', text='k1', opts='')
    at = dict(scale={t: a for t in TARGETS}), dict(scale={t: b for t in TARGETS})
    return dict(tools=TOOLS, steps=[dict(files={'p.pdf': 'k1', 'a.dm': '---\ntargets: html\n---\n@img[scale=%s]{p.pdf}\n\n@img[scale=%s]{p.pdf}\n' % (a, b)}, fresh=True, tools=TOOLS, targets=['html'],
                                         docs=[dict(doc='a.dm', images=[dict(i, **at[0]), dict(i, **at[1])])])])


def run(ctx):
    r = ctx.tlc('Images', consts=dict(Sources='{1, 2}', Scales='{0, 2, 3}', MaxEdits=ctx.n(1, 2), Apart='TRUE'), init='Init', next='Next', inv=['Shows', 'Ends', 'Needed'], workers=8)
    ctx.notes['models'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(120, 2500))]
    res = ctx.drive('images', cases, case_timeout=120)
    one = [dict(shared('2', '0.5'), key='shared-options')]
    cases, res = cases + one, res + ctx.drive('images', one, jobs=1, case_timeout=12)
    traces = [dict(x, key=c['key']) if 'key' in c else x for c, x in ctx.settle(cases, res, 'images')]
    ctx.sample(traces[-1])
    ctx.validate('Images', traces, 'images', consts=dict(Sources='{1}', Scales='{0}', MaxEdits=0, Apart='TRUE'), workers=8)
    ctx.assume('converters are stand-ins that write what they were asked to do', 'the file of an image is always shown with the same options in a target (see known_findings.txt)')
