"""C21 attribute lists and their views for targets (specs/Attributes.tla)."""

TARGETS = ['', '', '.html', '.tex', '.xhtml', '.css']
NAMES = ['class', 'width', 'src', 'id', 'w', 'a.b', 'key_2', 'htmlx', 'tex']
DOUBLE = ['w.html', 'id.tex', 'page.css']      # only with a mark of their own
POS = ['red', '3', '12', '3.14', '-2', '(a)', 'img/x.png', 'sec:one', 'my_file.pdf#l', 'latex', 'myhtml', 'xhtml', 'html', '{w}', 'a=', '2cm', '0.5', 'x-y']
VALUES = ['one', '3', 'fig.tex', 'page.html', 'a.css', '1,2', '50%', "it's", 'x=y', '#id', 'a/b.png', 'é']
QUOTED = ["two words", "it's", "'quoted'", "x 'y'", '', ' lead', 'a, b', 'a [b] c', 'k=v', 'page.tex', "end'", '(1)', 'fig.html.tex', 'two\nlines', '\nx']
SUF = ['.html', '.tex', '.xhtml', '.css']


def entry(r):
    suf = r.choice(SUF) if r.random() < .35 else ''
    if r.random() < .6:
        k = r.choice(NAMES + DOUBLE if suf else NAMES) + suf
        if r.random() < .4:
            v = r.choice(QUOTED)
            return k + r.choice(['=', '=', ' = ']) + ('"%s"' % v if r.random() < .7 or "'" in v else "'%s'" % v.replace('"', ''))
        return k + r.choice(['=', '=', '= ']) + r.choice(VALUES)
    if r.random() < .2:
        v = r.choice(['two words', 'a, b', '{u x}v', "it's here", "'in'", 'k=v w'])
        return '"%s"' % v
    return r.choice(POS) + suf


def text(r):
    q = [entry(r) for _ in range(r.randint(0, 6))]
    s = ''.join(e + (r.choice([' ', ' ', ', ', '\n', '  ']) if i < len(q) - 1 else '') for i, e in enumerate(q))
    if s.endswith('a=') or 'a= ' in s or 'a=,' in s or 'a=\n' in s:
        s = s.replace('a=', 'a')
    return '[%s]' % s if r.random() < .2 else s


def asked(r, kinds):
    q = [dict(kind=r.choice(kinds), name=[]) if r.random() < .3 else dict(kind='', name=list(r.choice(NAMES + POS[:4]))) for _ in range(r.randint(1, 4))]
    return [x for i, x in enumerate(q) if x not in q[:i]]


def case(r):
    ops, kinds = [dict(e='parse', text=list(text(r)))], ['any', 'int', 'float', 'string']
    for _ in range(r.randint(3, 9)):
        t = r.choice(TARGETS)
        x = r.random()
        base = dict(t=list(t), bare=r.random() < .5)
        if x < .2:
            ops.append(dict(e=r.choice(['view', 'view', 'raw']), **base))
        elif x < .4:
            a = asked(r, kinds)
            s = r.random() < .4
            ops.append(dict(e='pick', asked=a, sorted=s, plain=not t and all(not y['kind'] for y in a), alone=r.random() < .5, **base))
        elif x < .75:
            k = r.random()
            ops.append(dict(e=r.choice(['find', 'get']), kind='' if k < .5 else r.choice(kinds),
                            name=list(r.choice(NAMES + POS) + (r.choice(SUF) if r.random() < .2 else '')) if k < .5 else [], **base))
        elif x < .85:
            ops.append(dict(e='text', **base))
        elif x < .93:
            p = r.random() < .3
            kinds = ['any'] if p else kinds        # an entry added by position has no kind
            ops.append(dict(e='append', k=list(r.choice(POS[:4] if p else NAMES) + (r.choice(SUF) if r.random() < .3 else '')), v=list('' if p else r.choice(VALUES)), pos=p))
        else:
            ops.append(dict(e='copy'))
        if r.random() < .3:
            ops.append(dict(e='dict'))
    ops.append(dict(e='dict'))
    return dict(ops=ops)


def run(ctx):
    r = ctx.tlc('Attributes', consts=dict(MaxEntries=ctx.n(3, 4)), init='Init', next='Next', inv=['OneEach', 'NoLeak', 'NoLoss', 'Wins', 'Agree', 'AgreeKind', 'Stable'], workers=8)
    ctx.notes['lists'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(4000, 60000))]
    res = ctx.drive('attributes', cases)
    traces = [x for c, x in ctx.settle(cases, res, 'attribute lists')]
    ctx.sample(traces[-1])
    ctx.validate('Attributes', traces, 'attributes', consts=dict(MaxEntries=0), workers=8)
    ctx.assume('names of entries are words and dots; positional entries in quotes do not end like a target mark',
               'an unmarked entry that looks like a file of a target ("page.html") is an entry marked for that target')
