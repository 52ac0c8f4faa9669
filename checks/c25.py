"""C25 rendering is a function of the loaded project (specs/Render.tla)."""
WORDS = ['one', 'two & three', 'a < b', '50%', 'x_1', 'é', "it's", '"q"', 'a--b', '$5', '#', '~', 'end.']
ATTR = ['', '', '', '[class=c]', '[width=50%]', '[width.html=30% width.tex=3in]', '[width.html=20% width=70%]', '[class=c id=plain]', '[bold]', '[color=blue]',
        '[class.html=h color.tex=red]', '[env=gather]', '[style="x: y"]', '[alt="an image" width=3in]', '[nolabel]', '[nolabel.html]', '[bold.tex color.tex=red]']


def case(r, k):
    ids, n = [], [0]
    eqs = k % 4 != 0

    def word():
        return r.choice(WORDS)

    def attr(must=None):
        a = must if must is not None else r.choice(ATTR)
        if '%ID' in a:
            n[0] += 1
            ids.append('i%d' % n[0])
            a = a.replace('%ID', ids[-1])
        return a

    def inline(d):
        x = r.random()
        if d <= 0 or x < .3:
            return word()
        inner = ' '.join(inline(d - 1) for _ in range(r.randint(1, 2)))
        t = r.choice(['b', 'i', 'sup', 'sub', 'verb', 'supsub', 'symbol', 'code', 'python', 'unknown', 'sidenote', 'img', 'ref', 'term', 'eq', 'ensure', 'v'])
        if t == 'supsub':
            return '@supsub{%s && %s}' % (word(), word())
        if t == 'symbol':
            return '@symbol{%s}' % r.choice(['alpha', 'Delta', 'none'])
        if t == 'img':
            return '@img%s{%s}' % (attr(), r.choice(['a.png', 'sub/b.png']))
        if t == 'ref':
            return '@ref{%s}' % r.choice(ids) if ids else word()
        if t in ('eq', 'term'):
            return '@%s%s{y = @b{x} + %s}' % (t, attr(), r.choice(['a', '@sup{2}', '@termb{z}'])) if eqs else word()
        return '@%s%s{%s}' % (t, attr(), inner)

    def heading():
        text, name = inline(1), r.choice(['title', 'part', 'chapter', 'section', 'subsection', 'subsubsection', 'para'])
        return '@%s%s{%s}' % (name, attr('' if name == 'para' else r.choice(['', '[id=%ID]', '[nolabel]', '[class=c]'])), text)

    def caption():
        n[0] += 1
        return r.choice(['@caption{c%d %s}' % (n[0], inline(1)), '@caption[class=k]{c%d %s}' % (n[0], word())])

    def captioned(s):
        # an id is that of the caption
        if r.random() < .5:
            return s % ('', '')
        c = caption()
        return s % (attr(r.choice(['', '[id=%ID]', '[class=w]'])), c)

    def block(d=2):
        t = r.choice(['text', 'text', 'heading', 'fig', 'table', 'list', 'box', 'code', 'eq', 'toc', 'panel', 'heading', 'nav', 'panels'])
        if t == 'heading':
            return heading()
        if t == 'fig':
            return captioned('@%s%%s{%s %%s}' % (r.choice(['fig', 'marginfig', 'ffig']), inline(1).replace('%', '%%')))
        if t == 'panels':
            return '@fig{@panel[width=50%%]{@img{a.png}} @panel[width=%s]{%s} %s}' % (r.choice(['50%', '2in', '30%']), inline(1), caption())
        if t == 'panel':
            return '@fig{@panel[%s]{%s}}' % (r.choice(['width=50%', 'width=20%', 'width.html=10% width.tex=80%']), inline(1))
        if t == 'table':
            return captioned('@%s%%s{%%s @csv%s{\na, @b{b}\n1, %s\n3, 4}}' % (r.choice(['table', 'margintable', 'fulltable']), r.choice(['', '[noheader]']), r.choice(['2', '@i{2}', 'x&y'])))
        if t == 'list':
            return '@%s{\n%s}' % (r.choice(['list', 'enumerate', 'orderedlist']), '\n'.join('%s- %s' % (' ' * r.randint(0, 3), inline(1)) for _ in range(r.randint(1, 4))))
        if t == 'box':
            return '@%s%s{\n%s\n}' % (r.choice(['featurebox', 'examplebox', 'problembox']), attr(r.choice(['', '[class=c]'])), '\n\n'.join(block(d - 1) if d > 0 else inline(1) for _ in range(r.randint(1, 2))))
        if t == 'code':
            return '@%s{\ndef f():\n    return 1\n}' % r.choice(['python', 'code', 'ruby'])
        if t == 'eq':
            return '@eq%s{y = %s}' % (attr(r.choice(['', '[env=alignat* 2]', '[bold color=blue]'])), word() if 0 else 'x @sub{1}') if eqs else 'text'
        if t == 'toc':
            return '@toc%s{%s}' % (r.choice(['', '[header]']), r.choice(['all headings', 'headings', 'all documents', 'all headings abbreviated', 'documents']))
        if t == 'nav':
            return r.choice(['@next', '@prev']) + '{}'
        return ' '.join(inline(2) for _ in range(r.randint(1, 4)))

    names = ['a.dm'] + r.sample(['b.dm', 'sub/c.dm', 'd.dm'], r.randint(0, 2))
    files = {'a.png': 'png a', 'sub/b.png': 'png b'}
    body = {x: '\n\n'.join(block() for _ in range(r.randint(2, 7))) for x in names}
    for x in names:
        head = ['targets: html, xhtml, tex, txt'] if x == 'a.dm' else []
        if x == 'a.dm' and len(names) > 1:
            head += ['include:'] + ['  ' + y for y in names[1:]]
        if r.random() < .4:
            head += ['title: @b{T} %s' % word().replace('#', '')]
        if r.random() < .4:
            head += ['author: A and B']
        if r.random() < .2:
            head += ['@m: @i{macro}']
        files[x] = '---\n%s\n---\n%s\n' % ('\n'.join(head), body[x])
    asked = [[r.randrange(3), None if r.random() < .5 else r.randrange(200), r.randrange(5)] for _ in range(r.randint(3, 8))]
    ops = []
    for _ in range(r.randint(8, 25)):
        x = r.random()
        ops.append('look' if x < .1 else 'again' if x < .15 else r.randrange(len(asked)))
    return dict(files=files, first='a.dm', asked=asked, ops=ops, build=not eqs)


def run(ctx):
    r = ctx.tlc('Render', consts=dict(Shared=False, MaxWork=2), init='Init', next='Next', inv=['Unchanged', 'Pure', 'Function'], workers=8)
    ctx.notes['histories of renderings'] = r['distinct']
    cases = [case(ctx.rng, k) for k in range(ctx.n(240, 4000))]
    res = ctx.drive('render', cases, case_timeout=120)
    traces = [dict(x, project=repr(c)) for c, x in ctx.settle(cases, res, 'projects')]
    ctx.sample(traces[0])
    ctx.validate('Render', traces, 'projects', consts=dict(Shared=False, MaxWork=0), workers=8)
    ctx.assume('values kept from one rendering for the next ones (places of images, cells of tables) are not part of the document')
