"""C32 the electronic book of a project (specs/Epub.tla)."""
import json
NAMES = ['b.dm', 'sub/c.dm', 'sub-c.dm', 'd d.dm', 'sub/e&e.dm', '1.dm', 'sub/f%20.dm', 'sub.c.dm', 'Sub/C.dm', '2nd.dm', 'a/a.dm', 'sub/sub/c.dm']
PNG = '\x89PNG\r\n\x1a\n'


class Book:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.ids = []
        self.docs = {'a.dm': dict(incl=[], items=[], title='My book', extra={})}
        self.targets = r.choice(['epub', 'epub', 'epub', 'epub, xhtml', 'epub, html', 'html, epub'])
        self.files = {}
        for f in ('i.png', 'sub/j.png', 'k k.svg', 'l.svg'):
            self.touch(f)
        for n in r.sample(NAMES, r.randint(0, 4)):
            self.add(n)
        for n in list(self.docs):
            self.fill(n)

    def new(self):
        self.n += 1
        return 'w%dw' % self.n

    def touch(self, f):
        t = self.new()
        self.files[f] = (PNG + t if f.endswith('png') else '<svg xmlns="http://www.w3.org/2000/svg" width="10" height="10"><text>%s</text></svg>' % t, t)

    def tree(self, n='a.dm'):
        return [n] + [y for x in self.docs[n]['incl'] for y in self.tree(x)]

    def add(self, n):
        p = self.r.choice(self.tree()) if self.r.random() < .4 else 'a.dm'
        self.docs[n] = dict(incl=[], items=[], title='', extra={})
        l = self.docs[p]['incl']
        l.insert(self.r.randint(0, len(l)), n)

    def item(self):
        r = self.r
        k = r.choice(['mark', 'mark', 'head', 'img', 'ref'])
        if k == 'head':
            return dict(k=k, tok=self.new(), id='id' + str(self.n), level=r.choice(['chapter', 'section', 'subsection']))
        if k == 'img':
            return dict(k=k, tok=r.choice(list(self.files)), id='')
        return dict(k=k, tok=self.new() if k == 'mark' else '', id='')

    def fill(self, n):
        self.docs[n]['items'] = [self.item() for _ in range(self.r.choice([0, 1, 2, 3, 5]))]
        if self.r.random() < .3:
            self.docs[n]['items'] = [x for x in self.docs[n]['items'] if x['k'] != 'head']

    def settle(self):
        """references to headings that exist"""
        tree = self.tree()
        self.docs = {n: self.docs[n] for n in tree}
        ids = [x['id'] for n in tree for x in self.docs[n]['items'] if x['k'] == 'head']
        for n in tree:
            for x in self.docs[n]['items']:
                if x['k'] == 'ref' and x['id'] not in ids:
                    x['id'] = self.r.choice(ids) if ids else ''
            self.docs[n]['items'] = [x for x in self.docs[n]['items'] if x['k'] != 'ref' or x['id']]

    def text(self, n):
        d = self.docs[n]
        h = []
        if n == 'a.dm':
            h = ['targets: ' + self.targets, 'title: ' + d['title']] + ['%s: %s' % x for x in d['extra'].items()]
        if d['incl']:
            up = '/'.join(['..'] * n.count('/'))
            h += ['include:'] + ['    ' + (up + '/' if up else '') + x for x in d['incl']]
        out = '---\n' + '\n'.join(h) + '\n---\n' if h else ''
        for x in d['items']:
            if x['k'] == 'head':
                out += '@%s[id=%s]{Head %s}\n\n' % (x['level'], x['id'], x['tok'])
            elif x['k'] == 'img':
                out += '@img{%s}\n\n' % x['tok']
            elif x['k'] == 'ref':
                out += 'see @ref{%s} there\n\n' % x['id']
            else:
                out += 'text %s here\n\n' % x['tok']
        return out

    def texts(self):
        return dict({n: self.text(n) for n in self.docs}, **{f: t for f, (t, w) in self.files.items()})

    def state(self):
        return json.loads(json.dumps(dict(root='a.dm', title=self.docs['a.dm']['title'], files=[dict(name=f, tok=w) for f, (t, w) in self.files.items()],
                    docs=[dict(name=n, incl=d['incl'], items=[dict(k=x['k'], tok=x['tok'], id=x['id']) for x in d['items']]) for n, d in self.docs.items()])))

    def edit(self):
        r = self.r
        k = r.choice(['fill', 'fill', 'item', 'swap', 'swap', 'title', 'extra', 'image', 'add', 'drop', 'heads', 'rename'])
        n = r.choice(self.tree())
        d = self.docs[n]
        if k == 'fill':
            self.fill(n)
        elif k == 'item':
            d['items'].insert(r.randint(0, len(d['items'])), self.item())
        elif k == 'swap':
            m = [x for x in self.tree() if len(self.docs[x]['incl']) > 1]
            if m:
                r.shuffle(self.docs[r.choice(m)]['incl'])
        elif k == 'title':
            self.docs['a.dm']['title'] = r.choice(['My book', 'A <new> title', 'Salt & pepper', 'Title %d' % r.randint(0, 99), '"Quoted" words'])
        elif k == 'extra':
            self.docs['a.dm']['extra'] = r.choice([{}, {'word': self.new()}, {'date': '2020-01-0%dT00:00:00Z' % r.randint(1, 9)}])
        elif k == 'image':
            self.touch(r.choice(list(self.files)))
        elif k == 'add':
            m = [x for x in NAMES if x not in self.docs]
            if m and len(self.docs) < 6:
                n = r.choice(m)
                self.add(n)
                self.fill(n)
        elif k == 'drop' and n != 'a.dm':
            for x in self.docs.values():
                if n in x['incl']:
                    x['incl'].remove(n)
        elif k == 'heads':
            for x in self.docs.values():
                x['items'] = [i for i in x['items'] if i['k'] != 'head']
        elif k == 'rename':
            for i in d['items']:
                if i['k'] == 'head':
                    i['tok'] = self.new()


def session(r):
    b = Book(r)
    b.settle()
    was = b.texts()
    ops = [dict(op='edit', files=was, state=b.state()), dict(op='build', again=r.choice(['', 'same', 'restart']))]
    for _ in range(r.randint(1, 4)):
        for _ in range(r.choice([1, 1, 2])):
            b.edit()
        b.settle()
        now = b.texts()
        ops.append(dict(op='edit', files={f: now.get(f) for f in list(was) + list(now) if was.get(f) != now.get(f)}, state=b.state()))
        was = now
        if r.random() < .3:
            ops.append(dict(op='restart'))
        if r.random() < .25:
            ops.append(dict(op='damage', what=r.choice(['book', 'cached', 'nav']), how=r.choice(['delete', 'cut']), at=r.choice([0, 10, 100, 700])))
        ops.append(dict(op='build', again=r.choice(['', '', 'same', 'restart'])))
    return dict(root='a.dm', ops=ops)


def run(ctx):
    covers = {'"%s"' % x for x in ('pages', 'nav', 'order', 'entries', 'files')}
    r = ctx.tlc('Epub', consts=dict(Covers=covers, MaxOps=ctx.n(5, 7)), init='Init', next='Next', inv=['AsNow', 'NothingToDo'], workers=8)
    ctx.notes['histories of edits and builds'] = r['distinct']
    cases = [session(ctx.rng) for _ in range(ctx.n(70, 1500))]
    res = ctx.drive('epub', cases, case_timeout=150)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'sessions')]
    ctx.sample(traces[0])
    ctx.validate('Epub', traces, 'books', consts=dict(Covers=covers, MaxOps=0), workers=8)
    ctx.assume('an edited file has a later modification time than its earlier version')
