"""C24 elements, commands and documents of simple tags (specs/Formats.tla)."""
import json
KNOWN = ['a', 'a', 'img', 'img', 'link', 'aside', 'blockquote', 'br', 'code', 'caption', 'dd', 'div', 'dl', 'dt', 'em', 'figure', 'figcaption', 'h1', 'h2', 'h3', 'h4', 'h5', 'hr', 'li', 'i', 'ol', 'p', 'pre',
         'span', 'strong', 'sub', 'sup', 'table', 'tbody', 'td', 'th', 'thead', 'tr', 'ul']
UNKNOWN = ['foo', 'script', 'iframe', 'style', 'onclick', 'panel', 'note2', 'Strong', 'h6']
VOID = {'br', 'hr', 'img', 'link'}
# HTML lets the ends of these be left out when they are empty
ENDLESS = {'dd', 'dt', 'li', 'p', 'td', 'th', 'tr', 'thead', 'tbody'}
KEYS = ['href', 'src', 'rel', 'class', 'class', 'id', 'style', 'alt', 'media', 'role', 'onclick', 'title', 'width', 'target']
VALUES = ['x', 'two words', 'a&b', '&amp;', '<b>', "it's", 'say "hi"', 'color: red', '1', 'a=b', '\u00e9t\u00e9', '']
URLS = ['x.html', 'a/b.png', '#top', 'x.html?a=1&b=2', '../c.css']
TEXTS = ['text', 'a & b', '1 < 2 > 0', '&lt;b&gt;', '"quoted"', "it's", '<i>no</i>', '&alpha', 'x y', 'caf\u00e9', ']]>', '<!-- c -->', '100%']
ENVS = ['align', 'align*', 'center', 'examplebox', 'featurebox', 'problembox', 'itemize', 'table', 'table*', 'margintable', 'toclist', 'verbatim'] + ['alignat', 'alignat*', 'panel', 'tabular', 'enumerate', 'easylist', 'figure', 'figure*', 'marginfigure'] * 2
CMDS = ['textbf', 'textit', 'part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph', 'part*', 'chapter*', 'section*', 'subsection*', 'subsubsection*', 'maketitle', 'title',
        'author', 'today', 'caption', 'ensuremath', 'marginnote', 'marginpar', 'item', 'label', 'boldsymbol', 'toprule', 'midrule', 'bottomrule', 'hfill', 'detokenize'] + ['setcounter', 'includegraphics', 'textcolor', 'pageref', 'href'] * 5
NEEDS = dict(a='href', img='src', link='rel')


def entry(n, t='', v='', kind=''):
    return dict(n=n, t=t, v=v, pos=bool(kind), kind=kind)


def distinct(es):
    seen, out = set(), []
    for e in es:
        if (e['n'], e['t']) not in seen:
            seen.add((e['n'], e['t']))
            out.append(e)
    return out


def html_entries(r, name):
    es = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        if r.random() < .12:
            es.append(entry(r.choice(['word', 'red', '7', 'nolabel']), r.choice(['', '', 'html']), kind='string'))
            es[-1]['kind'] = 'int' if es[-1]['n'] == '7' else 'string'
            continue
        k = r.choice(KEYS)
        es.append(entry(k, r.choice(['', '', '', 'html', 'xhtml', 'tex']), r.choice(URLS if k in ('href', 'src') else VALUES)))
    if name in NEEDS and r.random() < .8:
        es.insert(r.randint(0, len(es)), entry(NEEDS[name], r.choice(['', '', '', 'html', 'xhtml', 'tex']), r.choice(URLS)))
    return distinct(es)


def node(r, depth, method, target):
    name = r.choice(UNKNOWN) if r.random() < .2 else r.choice(KNOWN)
    explicit = r.random() < .3
    t = target
    if explicit:
        t = r.choice(['html', 'xhtml', 'tex'])
    how = r.choice(['element', 'element', 'markup'])
    if how == 'markup' and depth > 0:
        t = r.choice(['html', 'xhtml'])
    parts = []
    if name not in VOID:
        for _ in range(r.choice([0, 1, 1, 2, 3]) if depth < 3 else r.choice([0, 1])):
            if depth == 3 or r.random() < .55:
                # two texts in a row are two contents
                parts.append(dict(text=True, name=r.choice(TEXTS + ['']), attrs=[], target='', parts=[]))
            else:
                parts.append(node(r, depth + 1, 'xhtml' if how == 'markup' and depth > 0 else method, 'xhtml' if how == 'markup' and depth > 0 else target))
    if name in ENDLESS and not any(x['name'] for x in parts):
        parts = [dict(text=True, name='text', attrs=[], target='', parts=[])]
    return dict(text=False, name=name, attrs=html_entries(r, name), target=t, explicit=explicit, dot=r.random() < .5, method=method, how=how, listed=r.random() < .3, none='', parts=parts)


def element(r):
    m = r.choice(['html', 'html', 'xhtml', 'xml'])
    return dict(e='element', level=r.choice([1, 1, 2]), node=node(r, 0, m, 'html' if m == 'html' else 'xhtml'))


TV = ['3', '0.4\\textwidth', 'x', 'ccc', '0pt', 'htb', 'blue', 'sec:one', 'a b']


def tex_entries(r, kinds, names):
    es = []
    for k in kinds + names:
        if r.random() < .85:
            if k in ('string', 'int'):
                es.append(entry(r.choice(['12', '0', '3']) if k == 'int' else r.choice(TV[1:]), r.choice(['', '', '', 'tex', 'html']), kind=k))
            else:
                es.append(entry(k, r.choice(['', '', 'tex', 'html']), r.choice(TV)))
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.choice(['string', 'int', 'float', '', ''])
        if k:
            es.append(entry({'int': r.choice(['5', '-2']), 'float': '1.5'}.get(k) or r.choice(TV[1:]), r.choice(['', '', 'tex', 'html']), kind=k))
        else:
            es.append(entry(r.choice(['width', 'height', 'label', 'class', 'scale']), r.choice(['', '', 'tex', 'html']), r.choice(TV)))
    r.shuffle(es)
    return distinct(es)


def command(r):
    name = r.choice(['foo', 'input', 'write18', 'Textbf', 'textbf*', 'begin', 'panel']) if r.random() < .12 else r.choice(CMDS)
    kinds = dict(setcounter=['string', 'int'], textcolor=['string'], pageref=['string'], href=['string']).get(name, [])
    return dict(e='command', name=name, attrs=tex_entries(r, kinds, ['width', 'height'] if name == 'includegraphics' else []), text=r.choice(['', 'text', 'a {b} c', '\\textbf{x}', '1 & 2']), indent=r.choice([0, 0, 0, 2, 4]), **{'with': r.random() < .8})


def environment(r):
    name = r.choice(['foo', 'document', 'Center', 'tikzpicture', 'textbf', '']) if r.random() < .12 else r.choice(ENVS)
    kinds = dict(alignat=['int'], panel=['string'], tabular=['string'], enumerate=['string'], easylist=['string'], figure=['string'], marginfigure=['string']).get(name.rstrip('*'), [])
    return dict(e='environment', name=name, attrs=tex_entries(r, kinds, ['label'] if name == 'enumerate' else []), text=r.choice(['text', 'a {b} c', '\\item x', '1 & 2']), indent=r.choice([0, 0, 0, 2, 4]),
                short=r.random() < .4, before=r.choice(['', '', '\n']), after=r.choice(['', '', '\n']))


def verb(r):
    return dict(e='verb', text=''.join(r.choice(list('ab |!^+=/&%<{}\\"')) for _ in range(r.randint(0, 9))))


def width(r):
    t = r.choice([r.randint(1, 1000), 10 * r.randint(1, 100), 10 * r.choice([24, 25, 26, 32, 33, 34, 35, 50, 51, 66, 67, 68, 74, 75, 76, 99, 100]), r.choice([249, 250, 251, 330, 331, 340, 500, 501, 670, 671, 750, 751])])
    whole = t % 10 == 0
    text = r.choice(['%s%%', ' %s%%', '%s %%']) % (t // 10 if whole and r.random() < .7 else '%d.%d' % (t // 10, t % 10)) if r.random() < .7 or t % 10 else ('%.2f' % (t / 1000.) if t < 1000 else '1')
    return dict(e='width', text=text, tenths=t, mark=r.choice(['', '', None]) or '')


WORDS = ['one', 'two words', 'a & b', '1 < 2', 'x > y', 'caf\u00e9', 'f(x)', '5 percent', 'so; on', 'e.g. this', '/path/']
GENERIC = ['foo', 'person', 'span', 'div', 'em', 'ul', 'td', 'blockquote', 'iframe', 'a', 'dd', 'mark', 'p3']


def quoted(v):
    return '"' if '"' not in v else "'"


def doc_attrs(r, name):
    es = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        es.append(entry(r.choice(['class', 'class', 'id', 'style', 'title', 'onclick', 'role']), r.choice(['', '', '', 'html', 'xhtml', 'tex']), r.choice(['x', 'two words', 'a&b', 'c<d', 'color: red', 'w50'])))
    if name == 'a':
        es.append(entry('href', '', r.choice(URLS)))
    if r.random() < .15:
        es.append(entry(r.choice(['word', 'red']), '', kind='string'))
    return [dict(e, q=quoted(e['v'])) for e in distinct(es)]


def word(s):
    return dict(text=True, name=s, attrs=[], parts=[])


def tag(r, depth):
    k = r.random()
    if k < .12:
        return dict(text=False, name='symbol', attrs=[], parts=[word(r.choice(['alpha', 'beta', 'Omega']))])
    if k < .24:
        return dict(text=False, name='supsub', attrs=doc_attrs(r, 'supsub'), parts=[word(r.choice(['a', '2+', '<3'])), word(r.choice(['b', 'x & y']))])
    if .24 <= k < .36 and depth:
        return dict(text=False, name=r.choice(['verb', 'v', 'pre']), attrs=doc_attrs(r, 'verb'), parts=[word(r.choice(['x', 'a | b', '@b{no}', '<c> & !', '|!^+']))])
    name = r.choice(['b', 'bold', 'textbf', 'strong', 'i', 'italics', 'textit', 'sup', 'sub'] + GENERIC)
    return dict(text=False, name=name, attrs=doc_attrs(r, name), parts=inline(r, depth + 1))


def inline(r, depth):
    out = []
    for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([1, 2, 3, 4])):
        if depth == 0 or depth > 3 or r.random() < .6:
            out.append(word((' ' if out else '') + r.choice(WORDS) + (' ' if depth < 4 else '')))
        if depth < 4 and r.random() < .6:
            out.append(tag(r, depth))
    return out or [word('end')]


def tidy(parts):
    """no white space at the ends of blocks"""
    if parts and parts[0]['text']:
        parts[0]['name'] = parts[0]['name'].lstrip()
    if parts and parts[-1]['text']:
        parts[-1]['name'] = parts[-1]['name'].rstrip()
    return parts


def doc(r):
    body = []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .6:
            p = [word(r.choice(WORDS) + ' ')] + inline(r, 0)
            body.append(dict(text=False, name='para', attrs=[], parts=tidy(p + [word(' ' + r.choice(WORDS))])))
        elif k < .72:
            n = r.choice(['marginfig', 'figure', 'fig', 'fullfigure', 'fullfig', 'ffig'])
            panels = []
            for _ in range(r.randint(1, 3)):
                c = width(r)
                q = [dict(entry('width', '', c['text']), q='"')] + doc_attrs(r, n)
                q = [x for x in q if x['n'] == 'width' or x['n'] in ('title', 'onclick')]
                panels += [word(' ')] * bool(panels) + [dict(text=False, name='panel', attrs=q, tenths=c['tenths'], parts=tidy([word('in ')] + inline(r, 1) + [word(' panel')]))]
            body.append(dict(text=False, name=n, attrs=doc_attrs(r, n), parts=panels))
        elif k < .85:
            n = r.choice(['chapter', 'section', 'subsection', 'subsubsection'])
            body.append(dict(text=False, name=n, attrs=[dict(entry('nolabel', kind='string'), q='')] + doc_attrs(r, n), parts=tidy([word('Title ')] + inline(r, 1))))
        else:
            n = r.choice(['featurebox', 'examplebox', 'problembox'])
            body.append(dict(text=False, name=n, attrs=doc_attrs(r, n), parts=tidy([word('in ')] + inline(r, 0) + [word(' box')])))
    return dict(e='doc', body=body, order=r.sample(['html', 'xhtml', 'tex'], 3))


def run(ctx):
    r = ctx.tlc('Formats', consts=dict(MaxEntries=ctx.n(2, 3)), init='Init', next='Next', inv=['OnlyKnown', 'OwnWins', 'NotOthers', 'Monotone'], workers=8)
    ctx.notes['lists of attributes'] = r['distinct']
    kinds = [(element, 1200, 20000), (command, 800, 12000), (environment, 800, 12000), (verb, 150, 2000), (width, 400, 3000), (doc, 500, 6000)]
    cases = [f(ctx.rng) for f, a, b in kinds for _ in range(ctx.n(a, b))]
    res = ctx.drive('formats', cases)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'formats')]
    ctx.sample(traces[0])
    ctx.validate('Formats', traces, 'formats', consts=dict(MaxEntries=0), workers=8)
    ctx.assume('attributes of elements that are allowed have values', 'in LaTeX contents are written as they are', 'white space between blocks is free')
