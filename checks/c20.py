"""C20 paragraphs (specs/Markup.tla, specs/MarkupText.tla: Paragraphs)."""
import c18
L = list
BREAKS = ['\n\n', '\n \n', '\n\n\n', '\n\t\n ', '\r\n\r\n', '\n', ' \n\n ']
INLINE = ['@b{x}', '@i{y z}', '@foo', '@code{@b{x}}', '@sup[q=1]{2}', '@b{@i{x}}', '@code[x=1]{a\n\nb}', '@b{x\n\ny}', '@i{@b{x} t}', '@b{}', '@b{ @verb{@i{x}} }']
BLOCK = ['@verb{v}', '@pre{a\n\nb}', '@verbatim{@b{x}}', '@featurebox{x}', '@featurebox{}', '@featurebox{x\n\n@b{y}}', '@featurebox[w]{@b{x}}', '@v{}', '@featurebox{@featurebox{x y}}',
         '@featurebox{\n\n}', '@ExampleBox{x\n\n@verb{y}}']
BLOCK = BLOCK[:-1]      # boxes under other names are given the name of the first


def text(rng, depth=0):
    out = []
    for _ in range(rng.randint(1, 7) if not depth else rng.randint(0, 4)):
        r = rng.random()
        if r < .3:
            out.append(rng.choice(['t', 'some text', ' ', 'a. b', '', '\n', ' -- ', 'x--', '---']))
        elif r < .55:
            out.append(rng.choice(BREAKS))
        elif r < .75:
            out.append(rng.choice(INLINE))
        elif r < .87:
            out.append(rng.choice(BLOCK))
        elif depth < 2:
            out.append(rng.choice(['@featurebox{', '@featurebox{', '@b{', '@note{', '@featurebox[w]{']) + text(rng, depth + 1) + '}')
    return ''.join(out)


def run(ctx):
    rng = ctx.rng
    texts = c18.tokens(ctx, 'NextParToken', ctx.n(5, 6), ['ParagraphRules', 'ParagraphText'])
    hot = [t for t in texts if '\n\n' in t]
    texts = rng.sample(hot, min(len(hot), ctx.n(3500, 60000))) + rng.sample(texts, min(len(texts), ctx.n(800, 20000)))
    for _ in range(ctx.n(3500, 40000)):
        texts.append(text(rng))
    c18.decide(ctx, [c18.op(t.replace('\r', ''), c18.BODY) for t in texts if len(t) < 260], 'paragraphs')
    docs = []
    for _ in range(ctx.n(150, 2000)):
        t = 'x' + text(rng).replace('\r', '').replace('---', '--') + '\ny'
        docs.append(dict(op='document', name=c18.BODY, text=L(t), macros=[], chain=[[]]))
    c18.decide(ctx, docs, 'paragraphs of documents')
    ctx.assume('white space at the borders of paragraphs is free', 'contents that are one tag alone are left as they are')
