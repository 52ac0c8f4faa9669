"""C19 macros (specs/Markup.tla, specs/MarkupText.tla: Expand)."""
import c18
L = list
NAMES = ['a', 'ab', 'H2O', 'm', 'x_1', '13C', 'Abc', 'é', 'b', 'sup', 'n9']
PLAIN = ['t', 'some text', 'one. two', '@ x', '(z)', 'é', '-', 'x y', '@@', ',', 'T.', '=']


def mention(rng, names):
    n = rng.choice(names) if rng.random() < .85 else rng.choice(NAMES)
    return '@' + n + rng.choice(['', '', '{}', '{ }', '{\n}', '{ \n\t}', '.', '.x', '.title', ' ', 'b', '_', '{t}', '[x=1]{t}', '!', '@' + rng.choice(NAMES), '\n'])


def text(rng, names, depth=0):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .35:
            out.append(rng.choice(PLAIN))
        elif r < .75 or depth > 2:
            out.append(mention(rng, names))
        elif r < .83:
            out.append('@' + rng.choice(['verb', 'v', 'code', 'pre', 'verbatim']) + rng.choice(['', '[y=1]']) + '{' + text(rng, names, depth + 1) + '}')
        elif r < .87:
            out.append('{' + text(rng, names, depth + 1) + '}')
        else:
            out.append('@' + rng.choice(['b', 'i', 'foo', 'sup']) + rng.choice(['', '[q=1]', '[w]']) + '{' + text(rng, names, depth + 1) + '}')
    return ''.join(out)


def value(rng, names):
    """of one line, not ending in a name that what follows the macro could continue"""
    t = text(rng, names).replace('\n', ' ') if rng.random() < .75 else rng.choice(['H@sub{2}O', '@sup{13}C', '', 'x', '@div[class=c]', '@b{x}'])
    return t + rng.choice(['', '', 's']) + ('}' if False else '') if t.endswith('}') else t + rng.choice([' end', ')', '-', ';'])


def definitions(rng, circular):
    names = rng.sample(NAMES, rng.randint(1, 5))
    out = []
    for i, n in enumerate(names):
        use = names if circular else names[i + 1:] + ['zz']
        v = value(rng, use)
        if not circular:
            # names outside of the later ones may still be mentioned by accident
            for x in names[:i + 1]:
                v = v.replace('@' + x, '@zz')
        out.append((n, v))
    rng.shuffle(out)
    return out


DEFAULT = [('H2O', 'H@sub{2}O'), ('13C', '@sup{13}C')]      # of the program's own; any definition takes precedence


def mac(d):
    return [dict(name=L(n), value=L(v)) for n, v in d]


def header(d):
    """definitions as they can be written in a header"""
    return [(n, v.strip()) for n, v in d if v.strip() and not set(v) & set('"\'\\:#')]


def run(ctx):
    rng = ctx.rng
    texts = c18.tokens(ctx, 'NextMacToken', ctx.n(4, 5), ['ExpandOnce'])
    ops = []
    sets = [[('a', 'A'), ('ab', 'B')], [('a', 'x@ab{}y'), ('ab', '@b{q}')], [('a', '@v{@a}'), ('ab', '')], [('a', '@a'), ('ab', '@a{}@a')]]
    for t in rng.sample(texts, min(len(texts), ctx.n(2500, 30000))):
        ops.append(c18.op(t, macros=mac(rng.choice(sets) + DEFAULT)))
    for _ in range(ctx.n(3500, 40000)):
        d = definitions(rng, rng.random() < .15)
        ops.append(c18.op(text(rng, [n for n, v in d]), macros=mac(d + DEFAULT)))
    # long chains of definitions
    for k in range(2, ctx.n(9, 20)):
        d = [('m%d' % i, rng.choice(['@m%d{}', 'x @b{@m%d} y', '@m%d.', '[@m%d ]']) % (i + 1)) for i in range(k)] + [('m%d' % k, 'end')]
        if sum('{@' in v for n, v in d) < 8:
            rng.shuffle(d)
            ops.append(c18.op('the @m0 and @b{@m1}', macros=mac(d + DEFAULT)))
    ops = [o for o in ops if len(o['text']) < 200]
    c18.decide(ctx, ops, 'macros')
    docs = []
    for _ in range(ctx.n(350, 4000)):
        chain = [header(definitions(rng, rng.random() < .1)) for _ in range(rng.randint(1, 3))]
        names = [n for d in chain for n, v in d] or ['a']
        t = 'x ' + text(rng, names).replace('---', '').strip() + ' y'
        docs.append(dict(op='document', name=c18.BODY, text=L(t + '\n'), macros=mac(DEFAULT), chain=[mac(d) for d in chain]))
    c18.decide(ctx, docs, 'documents with macros')
    ctx.assume('definitions that refer to themselves are only required to end',
               'a macro value does not end in the middle of a name that the text after it continues')
