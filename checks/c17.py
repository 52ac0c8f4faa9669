"""C17 header and body of a text (specs/Header.tla)."""


def consts(n=0, m=0):
    return dict(MaxLen=n, MaxLines=m)


KEYS = ['kk', 'title-x', 'my key', 'k2', 'Zed']
WORDS = ['one', 'two, three', 'x y', '3', 'http://a.b/c', '//a.b/c', '//', 'name: Joe', '"quoted"', "'it s'", "it's", '1,2,3 lane', 'a -- b', '---', '- item', 'true', '', 'a \\: b', '" lead"', 'é ü', 'tab\there', '#4', '{x}', '..']


def block(rng, doc):
    ls, ind = [], rng.choice([0, 0, 0, 2, 4])
    keys = rng.sample(KEYS, rng.randint(0, 4))
    if not doc and rng.random() < .1 and keys:
        keys.append(keys[0])
    for k in keys:
        v = rng.choice(WORDS)
        if v == '---':
            v = 'x'
        ls.append(' ' * ind + k + rng.choice([': ', ':', ' : ', ':  ']) + v)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            n = rng.choice([ind + 2, ind + 2, ind + 4, ind + 1] + ([0] if not doc or True else []))
            w = rng.choice(WORDS)
            if w == '---' or (n <= ind and ':' in w):
                w = 'y'
            ls.append(' ' * n + (rng.choice(['sub: ', 'n1: ', '']) if n > ind else '') + w)
        if rng.random() < .15:
            ls.append(rng.choice(['', ' ' * ind]))
    return ls


def text(rng, doc=False):
    o = rng.choice(['---', '---', '----', '  ---', '------'])
    ls = [''] * rng.choice([0, 0, 0, 1, 2]) + [o + rng.choice(['', '', ' '])]
    ls += block(rng, doc)
    r = rng.random()
    if r < .85 or doc:
        ls.append(rng.choice(['', '', '  ']) + '-' * (o.count('-') + rng.choice([0, 0, 0, 2])) + rng.choice(['', '', '  ']))
    body = [rng.choice(['text', 'k: v', '', '---', '  more words', 'a--b', '- - -', '--- x ---']) for _ in range(rng.randint(0, 5))]
    if doc:
        body = [rng.choice(['text', 'kk: v', '', 'more words', '  indented', 'x']) for _ in range(rng.randint(1, 5))]
    t = '\n'.join(ls + body)
    return t + rng.choice(['', '\n', '\n\n'])


def ok(t):
    return not any(l.count('"') > 2 or l.count("'") > 2 for l in t.split('\n')) and '-' * 3 + '\t' not in t


def run(ctx):
    texts = []
    for nxt, n, m in (('NextChar', ctx.n(6, 7), 0), ('NextLine', 0, ctx.n(4, 5))):
        r = ctx.tlc('Header', consts=consts(n, m), init='GInit', next=nxt, inv=['NoLoss', 'Complete', 'Emit'], workers=8)
        ts = [''.join(t) for t in r['printed']]
        ctx.notes[nxt] = len(ts)
        k = ctx.n(1500, 30000)
        hot = [t for t in ts if '---' in t]
        texts += ctx.rng.sample(hot, min(len(hot), k)) + ctx.rng.sample(ts, min(len(ts), k // 3))
    for _ in range(ctx.n(1500, 20000)):
        texts.append(text(ctx.rng))
    texts = [t for t in texts if ok(t)]
    ops = [dict(op='parse', text=list(t)) for t in texts]
    for _ in range(ctx.n(160, 1600)):
        t = text(ctx.rng, doc=True)
        if ok(t):
            ops.append(dict(op='document', text=list(t), found=True))
    ctx.rng.shuffle(ops)
    cases = [dict(ops=ops[i:i + 10]) for i in range(0, len(ops), 10)]
    res = ctx.drive('header', cases)
    traces = [r for c, r in ctx.settle(cases, res, 'texts')]
    ctx.sample(traces[-1])
    ctx.validate('Header', traces, 'header', consts=consts(), workers=8)
    ctx.assume('the closing line has at least as many dashes as the opening one; texts where it has fewer are not decided',
               'values with more than one pair of the same quotes in a line are not decided; a backslash before a colon may be kept or removed')
