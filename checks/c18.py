"""C18 texts become trees of tags (specs/Markup.tla)."""
import re
L = list
BODY, ROOT = L('body'), L('root')
NAMES = ['a', 'b', 'i', 'sup', 'strong', 'foo', 'x1', '9z', 'Zed', 'note_2', 'verb', 'v', 'pre', 'verbatim', 'code', 'featurebox', 'textbf', 'dm']
TEXTS = ['t', 'some text', ' ', '\n', 'one. two', '@', '@ x', 'é ü', '[y]', '(z)', 'a@', '#1', '@@', '&', '<b>', '\\', '%', '$', '_', '^', '~', 'mail@', '[', ']', '@_u', '@-']
TYPO = ['--', '---', ' -- ', '----', "'", '"', "it's", '"q"', "'s'", ' "', '\n--', '– ', ' —', '- -', "('x')", '" "', "x'", '5\'10"']
ATTRS = ['', '', '', '[x=1]', '[w]', '[a=1 b="two words" pos]', "[k='v w', q]", '[ a = 1 ]', '[a.tex=1 a=2]', '[@x]', '[]', '[a=1 a=2]', '[x\n y]', '[a="@b{c}"]', '["p q"]']


def word(rng):
    r = rng.random()
    return rng.choice(TEXTS) if r < .75 else rng.choice(TYPO)


def balanced(rng, depth, plain=False):
    """a text with balanced tags, or nearly"""
    out = []
    for _ in range(rng.randint(0, 4) if depth else rng.randint(1, 6)):
        r = rng.random()
        if r < .45 or depth > 4:
            out.append(word(rng))
        elif r < .55:
            out.append('@' + rng.choice(NAMES) + rng.choice(ATTRS) + rng.choice([' ', '.', '\n', ' x', '-']))
        elif r < .62:
            out.append('{' + balanced(rng, depth + 1) + '}')
        else:
            n = rng.choice(NAMES)
            out.append('@' + n + rng.choice(ATTRS) + '{' + balanced(rng, depth + 1) + '}')
    return ''.join(out)


def deep(rng):
    k = rng.choice([3, 8, 9, 9, 10, 12, 29, 30, 31, 60])
    o = [rng.choice(['@b{', '@a{', '{', 'x{', '@v{']) if rng.random() < .5 else '@b{' for _ in range(k)]
    o[0] = '@a{'
    return 'x' + ''.join(o) + 'y' + '}' * k + 'z'


def broken(rng):
    t = re.sub(r'["\']', '', balanced(rng, 0))     # what half a quoted value means is left open
    k = rng.random()
    if k < .5:
        p = [i for i, c in enumerate(t) if c == '}']
        if p:
            i = rng.choice(p)
            t = t[:i] + t[i + 1:]
    else:
        i = rng.randint(0, len(t))
        t = t[:i] + rng.choice(['{', '}', '@', '@a{', '[', ']']) + t[i:]
    return t


def ok(t):
    """left out: attributes that are not simply names and values, files named as code"""
    return len(t) < 260


def op(t, name=ROOT, macros=()):
    return dict(op='tree', name=name, text=L(t), macros=list(macros), chain=[])


def tokens(ctx, nxt, n, inv):
    r = ctx.tlc('Markup', consts=dict(MaxTokens=n), init='GInit', next=nxt, inv=inv + ['Emit'], workers=8)
    ts = [''.join(t) for t in r['printed']]
    ctx.notes[nxt] = len(ts)
    return ts


def decide(ctx, ops, label):
    ctx.rng.shuffle(ops)
    cases = [dict(ops=ops[i:i + 12]) for i in range(0, len(ops), 12)]
    res = ctx.drive('markup', cases, case_timeout=20)
    traces = [r for c, r in ctx.settle(cases, res, label)]
    ctx.sample(traces[-1])
    ctx.validate('Markup', traces, label, consts=dict(MaxTokens=0), workers=8)


def run(ctx):
    ts = tokens(ctx, 'NextTagToken', ctx.n(5, 6), ['NoInvention', 'NoLoss', 'Plain'])
    hot = [t for t in ts if '@a' in t and '{' in t]
    texts = ctx.rng.sample(hot, min(len(hot), ctx.n(4000, 60000))) + ctx.rng.sample(ts, min(len(ts), ctx.n(1000, 20000)))
    for _ in range(ctx.n(2500, 30000)):
        texts.append(balanced(ctx.rng, 0))
    for _ in range(ctx.n(500, 6000)):
        texts.append(broken(ctx.rng))
    for _ in range(ctx.n(60, 300)):
        texts.append(deep(ctx.rng))
    decide(ctx, [op(t) for t in texts if ok(t)], 'texts')
    ctx.assume('texts with more than 9 nested braces may be refused', 'tags with a construction of their own (headings, images, lists, equations...) are not among the names')
