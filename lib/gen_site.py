"""Histories of edits and builds of projects (specs/Site.tla)."""
import json
import posixpath
PNG = '\x89PNG\r\n'


class Site:
    def __init__(self, r):
        self.r, self.n = r, 0
        names = ['a.dm'] + r.sample(['b.dm', 'sub/c.dm', 'd.dm', 'sub/e e.dm'], r.randint(0, 3))
        # the tree: each document is included by an earlier one
        self.parent = {x: r.choice(names[:i]) if r.random() < .4 else 'a.dm' for i, x in enumerate(names) if i}
        self.docs = {x: self.doc(x) for x in names}
        self.files = {'i.png': PNG + 'i0', 'sub/j.png': PNG + 'j0', 'sub/i.png': PNG + 'sub i0'}
        for f in ('t.csv', 'sub/u.csv', 't.py', 'sub/u.py'):
            self.files[f] = self.data(f)
        self.custom = r.random() < .4
        if self.custom:
            self.files['tpl:mine/html/template.html'] = self.html(0)
            self.files['tpl:mine/html/part.html'] = '<p>part 0</p>'
            self.files['tpl:mine/html/media/css/m.css'] = 'p {}'
            self.files['tpl:mine/html/media/css/n.css'] = 'q {}'
            self.files['tpl:mine/tex/template.tex'] = '{{ body.tex }} 0'
            self.files['tpl:mine/txt/template.txt'] = 'txt 0 {{ body.txt }}'
            self.files['tpl:mine/xhtml/template.xhtml'] = '<html>{{ body.xhtml }} 0</html>'
            self.files['tpl:mine/context.txt'] = 'word: zero\n'

    def html(self, k):
        css = self.r.choice(['m', 'n'])
        if self.r.random() < .5:
            return '{%% extends "default/html/template.html" %%}{%% block extra_css %%}<link rel="stylesheet" href="{{ "/media/css/%s.css" | rewrite_path }}">{%% endblock %%}{%% block footer %%}foot %d {%% include "mine/html/part.html" %%}{%% endblock %%}' % (css, k)
        return '<html><head><link rel="stylesheet" href="{{ "/media/css/%s.css" | rewrite_path }}"></head><body>%d {%% include "mine/html/part.html" %%} {{ title }} {{ word }} {{ body.html }}</body></html>' % (css, k)

    def data(self, f):
        return 'head %s,B\n%s,2\n' % (self.new(), self.new()) if f.endswith('csv') else '%s = %d\n' % (self.new(), self.n)

    def new(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def item(self):
        r = self.r
        k = r.choice(['text', 'text', 'head', 'head', 'ref', 'img', 'toc', 'nav', 'fig', 'use', 'list', 'sum', 'table', 'code'])
        if k == 'head':
            return [k, r.choice(['chapter', 'section', 'subsection']), self.new('id') if r.random() < .8 else '', self.new('Title ')]
        if k == 'fig':
            return [k, self.new('id') if r.random() < .6 else '', self.new('cap '), r.choice(['i.png', 'sub/j.png'])]
        if k == 'img':
            return [k, r.choice(['i.png', 'sub/j.png']), r.choice(['', '[width=50%]', '[width.html=20% width.tex=3in]'])]
        if k == 'ref':
            return [k, r.random()]
        if k == 'toc':
            return [k, r.choice(['all headings', 'headings', 'all documents', 'all headings abbreviated'])]
        if k == 'use':
            return [k, r.choice(['key', 'macro', 'word', 'title'])]
        if k in ('table', 'code'):
            # of a file or given directly
            return [k, r.choice(['t.', 'sub/u.', 'v.', self.new('x')]), r.choice(['', self.new('cap ')])]
        return [k, self.new()]

    def doc(self, x):
        r = self.r
        h = {}
        if x == 'a.dm':
            h['targets'] = r.choice(['html', 'html, tex', 'html, xhtml, tex, txt', 'tex, txt'])
        elif r.random() < .15:
            h['targets'] = r.choice(['html', 'html, tex', 'txt, html'])
        if r.random() < .4:
            h['title'] = self.new('T ')
        if r.random() < .3:
            h['key'] = self.new('k')
        if r.random() < .3:
            h['@macro'] = self.new('m')
        return dict(head=h, items=[self.item() for _ in range(r.randint(1, 5))])

    def ids(self):
        return sorted(i[2] if i[0] == 'head' else i[1] for d in self.tree() for i in self.docs[d]['items'] if (i[0] == 'head' and i[2]) or (i[0] == 'fig' and i[1]))

    def tree(self):
        return sorted(x for x in self.docs if x == 'a.dm' or self.inside(x))

    def inside(self, x):
        seen = set()
        while x != 'a.dm':
            if x in seen or x not in self.parent:
                return False
            seen.add(x)
            x = self.parent[x]
        return True

    def texts(self):
        """the sources of now"""
        out = dict(self.files)
        ids = self.ids()
        for x in self.docs:
            d = self.docs[x]
            h = ['%s: %s' % kv for kv in d['head'].items()]
            if self.custom and x == 'a.dm':
                h.append('template: mine')
            kids = [y for y in self.docs if self.parent.get(y) == x and self.inside(y)]
            if kids:
                h += ['include:'] + ['  ' + posixpath.relpath(y, posixpath.dirname(x) or '.') for y in kids]
            b = []
            for i in d['items']:
                if i[0] == 'head':
                    b.append('@%s%s{%s}' % (i[1], '[id=%s]' % i[2] if i[2] else '', i[3]))
                elif i[0] == 'fig':
                    b.append('@fig%s{@img{%s} @caption{%s}}' % ('[id=%s]' % i[1] if i[1] else '', posixpath.relpath(i[3], posixpath.dirname(x) or '.') if i[3] != 'i.png' else 'i.png', i[2]))
                elif i[0] == 'img':
                    b.append('@img%s{%s}' % (i[2], 'i.png' if i[1] == 'i.png' else posixpath.relpath(i[1], posixpath.dirname(x) or '.')))
                elif i[0] == 'ref':
                    # a reference stays with its label as long as it is there
                    if not isinstance(i[1], str) or i[1] not in ids:
                        i[1] = self.r.choice(ids) if ids else 0
                    b.append('see @ref{%s}' % i[1] if ids else 'no labels')
                elif i[0] == 'toc':
                    b.append('@toc{%s}' % i[1])
                elif i[0] == 'nav':
                    b.append('@prev{} @next{}')
                elif i[0] == 'use':
                    b.append('use @%s.' % i[1])
                elif i[0] == 'table':
                    b.append('@table{%s@csv%s{%s}}' % ('@caption{%s} ' % i[2] if i[2] else '', '[noheader]' if i[2] else '', i[1] + 'csv' if i[1].endswith('.') else 'A,B\n%s,2' % i[1]))
                elif i[0] == 'code':
                    b.append('@python{%s}' % (i[1] + 'py' if i[1].endswith('.') else i[1] + ' = 1'))
                elif i[0] == 'list':
                    b.append('@list{\n- %s\n  - @b{two}\n}' % i[1])
                else:
                    b.append('text %s & @i{more}' % i[1])
            out[x] = '---\n%s\n---\n%s\n' % ('\n'.join(h), '\n\n'.join(b)) if h else '\n\n'.join(b) + '\n'
        return out

    def edit(self):
        r = self.r
        k = r.choice(['item', 'item', 'add', 'drop', 'move', 'head', 'title', 'file', 'data', 'data', 'include', 'leave', 'reorder', 'tpl', 'tpl', 'targets', 'nothing', 'undo'])
        d = self.docs[r.choice(self.tree())]
        if k == 'item' and d['items']:
            d['items'][r.randrange(len(d['items']))] = self.item()
        elif k == 'add':
            d['items'].insert(r.randint(0, len(d['items'])), self.item())
        elif k == 'drop' and d['items']:
            d['items'].pop(r.randrange(len(d['items'])))
        elif k == 'move' and d['items']:
            e = self.docs[r.choice(self.tree())]
            e['items'].append(d['items'].pop(r.randrange(len(d['items']))))
        elif k == 'head':
            n = r.choice(['key', '@macro', 'word', 'title'])
            if n in d['head'] and r.random() < .4:
                del d['head'][n]
            else:
                d['head'][n] = self.new('h')
        elif k == 'title':
            d['head']['title'] = self.new('T ')
        elif k == 'file':
            self.files[r.choice(['i.png', 'sub/j.png', 'sub/i.png'])] = PNG + self.new('p') * r.randint(1, 2)
        elif k == 'data':
            f = r.choice([t + e for t in ('t.', 'sub/u.', 'v.', 'sub/t.') for e in ('csv', 'py')])
            if f not in self.files or r.random() < .8:
                self.files[f] = self.data(f)
            else:
                # its name is then the text itself
                del self.files[f]
        elif k == 'include':
            x = r.choice(['b.dm', 'sub/c.dm', 'd.dm', 'sub/e e.dm', 'f.dm'])
            p = r.choice([y for y in self.tree() if y != x] or ['a.dm'])
            if x not in self.docs:
                self.docs[x] = self.doc(x)
            old = self.parent.get(x)
            self.parent[x] = p
            if not self.inside(x):
                self.parent[x] = 'a.dm' if old is None else old
        elif k == 'leave' and len(self.tree()) > 1:
            self.parent.pop(r.choice([x for x in self.tree() if x != 'a.dm']), None)
        elif k == 'reorder':
            x = list(self.docs.items())
            r.shuffle(x)
            self.docs = dict(x)
        elif k == 'targets':
            self.docs['a.dm']['head']['targets'] = r.choice(['html', 'html, tex', 'html, xhtml, tex, txt', 'tex, txt'])
        elif k == 'tpl':
            if self.custom:
                t = r.choice(['html/template.html', 'html/template.html', 'html/part.html', 'html/media/css/m.css', 'html/media/css/n.css', 'tex/template.tex', 'txt/template.txt', 'xhtml/template.xhtml', 'context.txt'])
                v = self.new('')
                self.files['tpl:mine/' + t] = {'html/template.html': self.html(int(v)), 'context.txt': 'word: w%s\n' % v, 'tex/template.tex': '{{ body.tex }} ' + v, 'txt/template.txt': v + '{{ body.txt }}',
                                               'xhtml/template.xhtml': '<html>{{ body.xhtml }} %s</html>' % v}.get(t, '%s {}' % v)
            elif r.random() < .7:
                t = r.choice(['html/template.html', 'html/menu.html', 'html/nav.html', 'tex/template.tex', 'txt/template.txt', 'xhtml/template.xhtml', 'html/media/css/default.css', 'html/media/css/base.css'])
                self.files['tpl:default/' + t] = '+\nadded ' + self.new('')


def history(r, damage=0):
    s = Site(r)
    was = s.texts()
    case = dict(files=was, first='a.dm', ops=[dict(op='build')])
    past = []
    for _ in range(r.randint(2, 7)):
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s.edit()
        now = s.texts()
        if past and r.random() < .1:
            # everything is put back; the next edits start from the newest texts
            now = r.choice(past)
        past.append(now)
        ch = {f: now.get(f) for f in list(was) + list(now) if was.get(f) != now.get(f) and not (f.startswith('tpl:default') and f not in now)}
        for f in was:
            if f.startswith('tpl:default') and f not in now:
                now = dict(now, **{f: was[f]})
        if ch:
            case['ops'].append(dict(op='edit', files=ch))
        was = now
        if r.random() < (.12 if not damage else .5):
            case['ops'].append(dict(op='restart'))
        if r.random() < damage:
            case['ops'].append(dict(op='damage', which=[r.random() for _ in range(r.randint(1, 4))], how=r.choice(['delete', 'empty', 'cut', 'other'])))
        case['ops'].append(dict(op='build', **({'again': r.choice(['same', 'restart'])} if r.random() < .35 else {})))
    return case


def model(ctx):
    r = ctx.tlc('Site', consts=dict(Covers={'"own"', '"others"', '"template"', '"files"'}, MaxOps=ctx.n(5, 7)), init='Init', next='Next', inv=['AsFromScratch', 'NothingToDo'], workers=8)
    ctx.notes['histories of edits and builds'] = r['distinct']


def check(ctx, cases):
    res = ctx.drive('site', cases, case_timeout=200)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'projects')]
    ctx.sample(traces[0])
    ctx.validate('Site', traces, 'projects', consts=dict(Covers={'"own"'}, MaxOps=0), workers=8)
    ctx.assume('an edit gives a file a later modification time', 'files of documents that are no longer included may be left in the target folders')
