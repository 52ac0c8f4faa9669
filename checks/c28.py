"""C28 files named in documents and templates (specs/Deps.tla)."""
import json
EXTERNAL = {'http': 'https://test.com/a.css', 'host': '//test.com/m.css', 'data': 'data:image/png;base64,AAAA', 'fragment': '#top', 'file:': 'file:///tmp/x.css'}


def ref(r, names, dynamic=True):
    form = r.choice(['file'] * 6 + ['http', 'host', 'data', 'fragment'] + ['dynamic'] * dynamic)
    if form != 'file':
        return dict(form=form, path=[], absolute=False)
    return dict(form='file', path=list(r.choice(names)), absolute=r.random() < .5)


def element(r, x, jinja, n):
    """the text of an element with a reference"""
    q = r.choice('"\'')
    img = r.random() < .4
    attr = 'src' if img else 'href'
    check = ''
    if x['form'] == 'file':
        v = ('/' if x['absolute'] else '') + '/'.join(x['path'])
        if jinja and r.random() < .8:
            v = '{{ %s%s%s | rewrite_path }}' % ('"', v, '"')
            q, check = '"', 'data-check '
        elif r.random() < .2:
            v += r.choice(['?v=%d' % n, '#part', '?a=b#c'])
    elif x['form'] == 'dynamic':
        v, q = '{{ word }}', '"'
    else:
        v = EXTERNAL[x['form']]
    before = r.choice(['', 'class=%sc%s ' % (q, q), 'rel="stylesheet"\n  ', 'alt="a b" ']) + check
    tail = r.choice(['', ' id="i%d"' % n, ' /'])
    return '<%s %s%s=%s%s%s%s>' % ('img' if img else 'link', before, attr, q, v, q, tail)


def find(r):
    dirs = ['d%d' % i for i in range(r.randint(1, 4))]
    name = r.choice(['x.txt', 'deep/x.txt', 'a b.txt', '../up.txt', 'x'])
    sub = r.sample(['', 'one', 'one/two', 'three', 'one/four'], len(dirs))
    if name.startswith('..'):
        # different folders have different folders above
        sub = r.sample(['one/x', 'two/y', 'three/z', 'four/w'], len(dirs))
    holders = [d for d in dirs if r.random() < .4]
    if name == 'x' or name == 'deep/x.txt':
        holders = [d for d in holders]
    return dict(e='find', dirs=dirs, at=dict(zip(dirs, sub)), name=name, holders=holders, folders=[d for d in dirs if d not in holders and r.random() < .2 and not name.startswith('..')],
                incwd=r.random() < .4 and not name.startswith('..'), kinds=[r.choice(['source', 'source', 'path', 'text', 'target']) for _ in dirs], how=r.choice(['file', 'quiet', 'files', 'stream']))


def named(r):
    how = r.choice(['img', 'img', 'code', 'csv'])
    doc = r.choice(['a.dm', 'sub/c.dm', 'sub/deep/d.dm'])
    name = r.choice(['', '', 'files/']) + {'img': 'x.png', 'code': 'x.py', 'csv': 'x.csv'}[how]
    present = [d for d in ('doc', 'root', 'other') if r.random() < .5]
    dirs = ['doc', 'root'] if doc != 'a.dm' else ['doc']
    if doc == 'a.dm':
        present = [d for d in present if d != 'root']
    texts = {d: 'content_of_%s' % d for d in ('doc', 'root', 'other', 'cwd')}
    return dict(e='find', doc=doc, how=how, name=name, present=present, dirs=dirs, holders=[d for d in dirs if d in present], incwd=r.random() < .5, texts=texts)


def scan(r):
    d = r.choice([[], ['sub'], ['sub', 'deep']])
    files = r.sample([['m.css'], ['sub', 'm.css'], ['sub', 'deep', 'm.css'], ['media', 'n.css'], ['sub', 'media', 'n.css'], ['i.png'], ['a b.svg'], ['sub', 'i.png'], ['sub', 'sub', 'm.css']], r.randint(2, 8))
    names = [['m.css'], ['media', 'n.css'], ['i.png'], ['a b.svg'], ['sub', 'm.css'], ['deep', 'm.css']]
    if d:
        names += [['..', 'm.css'], ['..', 'i.png']]
    refs = [ref(r, names) for _ in range(r.randint(0, 4))]
    if r.random() < .6:
        # those which are there
        ok = [f for f in files]
        refs = [x if x['form'] != 'file' else dict(form='file', path=list(r.choice(ok)), absolute=r.random() < .5) for x in refs]
    refs = [dict(x, absolute=x['absolute'] and '..' not in x['path']) for x in refs]
    text = '<html>\n' + '\n'.join(element(r, x, False, n) + r.choice(['', 'text', '<p>not a "link"</p>', '<a href="nowhere.css">x</a>', '<script>var s = "x.png"</script>']) for n, x in enumerate(refs)) + '</html>'
    return dict(e='scan', refs=refs, dir=d, files=files, text=text, ext=r.choice(['.html', '.xhtml', '.htm']), source=r.random() < .5, args=r.randrange(3), strict=r.random() < .8)


def tree(r):
    n = r.randint(1, 5)
    folder = [0] + [r.randrange(2) for _ in range(n - 1)]
    name = ['mine/html/template.html'] + ['%s/html/t%d.html' % (['mine', 'other'][folder[i]], i + 1) for i in range(1, n)]
    # the files of the two folders have different names
    files = [[['media', k + 'a.css'], [k + 'b.css'], ['media', 'deep', k + 'c.svg'], [k + 'd.png']] for k in ('m', 'o')]
    missing = r.random() < .1
    names = [f + ([['media', 'gone.css']] if missing else []) for f in files]
    uses = [sorted(set(r.randint(1, n) for _ in range(r.choice([0, 1, 1, 2])))) for _ in range(n)]
    nodes, templates = [], {}
    for i in range(n):
        refs = [ref(r, names[folder[i]], True) for _ in range(r.randint(0, 3))]
        refs = [x if x['form'] != 'fragment' else dict(form='http', path=[], absolute=False) for x in refs]
        text = ''.join(element(r, x, True, k) + '\n' for k, x in enumerate(refs))
        extends = [j for j in uses[i] if j > i + 1]
        head = ''
        for j in uses[i]:
            if j > i + 1 and j == extends[-1] and r.random() < .3:
                head = '{%% extends "%s" %%}' % name[j - 1]
            elif j > i + 1:
                text += r.choice(['{%% include "%s" %%}', "{%% include '%s' %%}", '{%% include ["%s", "nothing.html"] %%}', '{%%- include "%s" ignore missing -%%}']) % name[j - 1]
            else:
                # templates that refer to each other, with an end
                text += '{%% if false %%}{%% include "%s" %%}{%% endif %%}' % name[j - 1]
        if r.random() < .15:
            text += '{% include "mine/html/nothing.html" ignore missing %}'
        if r.random() < .1:
            text += '{% set which = "mine/html/plain.html" %}{% include which %}'
        if head:
            text = head + '{% block b %}' + text + '{% endblock %}'
        else:
            text = r.choice(['%s', '{%% block b %%}%s{%% endblock %%}', '{# comment #}%s{{ title }}']) % text
        templates[name[i]] = text
        nodes.append(dict(refs=refs, uses=uses[i], files=files[folder[i]]))
    for k, fd in enumerate(('mine', 'other')):
        for f in files[k]:
            templates['%s/html/%s' % (fd, '/'.join(f))] = 'a file'
    templates['mine/html/plain.html'] = 'plain'
    docs = {'a.dm': '---\ntargets: html\ntemplate: mine\nword: https://w.com/x.css\n---\ntext\n'}
    if r.random() < .4:
        docs['a.dm'] = docs['a.dm'].replace('template', 'include:\n  sub/b.dm\ntemplate', 1)
        docs['sub/b.dm'] = 'text'
    hostile = ['/'.join(f) for f in files[0] + files[1]] if r.random() < .3 else []
    return dict(e='tree', nodes=nodes, templates=templates, docs=docs, hostile=hostile)


def run(ctx):
    r = ctx.tlc('Deps', consts=dict(NDirs=ctx.n(3, 4), Nodes={'"a"', '"b"', '"c"'}), spec='Spec', inv=['TakesFirst', 'OnlyOnce', 'Complete'], props=['Ends'], workers=8)
    ctx.notes['searches and template graphs'] = r['distinct']
    cases = []
    for k in range(ctx.n(200, 3000)):
        cases.append(dict(steps=[(find, scan)[j % 2](ctx.rng) for j in range(8)]))
    for k in range(ctx.n(120, 2000)):
        cases.append(dict(steps=[(named, tree)[k % 2](ctx.rng) for _ in range(2)]))
    res = ctx.drive('deps', cases)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'files')]
    ctx.sample(traces[0])
    ctx.validate('Deps', traces, 'files', consts=dict(NDirs=0, Nodes={'"a"'}), workers=8)
    ctx.assume('references are those of link and img elements with quoted values', 'a file only the current directory holds may be taken or not')
