"""C26 lists with bullets (specs/Lists.tla)."""

WORDS = ['one', 'two', 'three', 'x-y', 'a', 'été', '5', 'end.', '@b{bold}', '@i{slanted words}', 'f(x)', 'so-called', 'p.', 'q', 'r']


def text(r):
    pad = r.choice([0, 0, 0, 2, 4, 5])
    n = r.randint(0, 9) if r.random() < .1 else r.randint(2, 9)
    walk, ls = 0, []
    free = r.random() < .4
    line = lambda: ' '.join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
    if r.random() < .15:
        ls.append(' ' * r.randint(0, 4) + 'before the list')
    for i in range(n):
        walk = r.randint(0, 8) if free else max(0, walk + r.choice([0, 0, 2, 2, -2, 4, -4, 1, -1]))
        s = ' ' * (pad + walk) + r.choice('--*')
        ls.append(s + ('' if r.random() < .06 else r.choice([' ', ' ', ' ', '', '  ', '\t']) + (r.choice(['- ', '* ', '-']) if r.random() < .04 else '') + line()))
        while r.random() < .25:
            ls.append(' ' * r.randint(0, 8) + line() + (' - ' + line() if r.random() < .3 else ''))
        while r.random() < .15:
            ls.append(r.choice(['', '', '  ', ' ' * 7, '\t']))
    s = '\n'.join(ls)
    return ('' if r.random() < .3 and s[:1] not in ('b',) else '\n') + s + r.choice(['\n', '', '\n  '])


def case(r):
    lists = []
    for _ in range(r.randint(1, 3)):
        tag = r.choice(['list', 'list', 'orderedlist', 'outline'])
        lists.append(dict(tag=tag, kind='ul' if tag == 'list' else 'ol', text=list(text(r)),
                          before=r.choice(['', 'some text', 'text - with a dash\n']), after=r.choice(['', ' after', '\n', '\n\nmore\n'])))
    return dict(lists=lists, targets=['html', 'xhtml', 'tex'])


def run(ctx):
    r = ctx.tlc('Lists', consts=dict(MaxItems=ctx.n(6, 8), MaxIndent=ctx.n(4, 4)), init='Init', next='Next',
                inv=['AsOutline', 'EachOnce', 'Below', 'NoSkip', 'Deeper', 'Alike', 'AsGroups'], workers=8)
    ctx.notes['outlines'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(900, 12000))]
    res = ctx.drive('lists', cases)
    traces = [x for c, x in ctx.settle(cases, res, 'lists')]
    ctx.sample(traces[-1])
    ctx.validate('Lists', traces, 'lists', consts=dict(MaxItems=0, MaxIndent=0), workers=8)
    ctx.assume('indentation is made of spaces; lists do not contain lists, and tags in items do not span lines that start with a bullet',
               'plain text output has no levels')
