"""C10 label registry (specs/Labels.tla)."""
DOCS = ['a.dm', 'b.dm', 'b.dm.dm', 'bb.dm']
TAGK = {'h': ['heading', 'section'], 'c': ['heading', 'chapter'], 'f': ['caption', 'figure']}


def consts(n):
    return dict(Docs={'"a.dm"', '"b.dm"'}, Ids={'"x"', '"y"'}, MaxLen=n)


def doclabel(d):
    return dict(id='doc:' + d.replace('.', '-'), kinds=['document', 'document-level-%d' % (1 if d == DOCS[0] else 2)])


def history(rng, n):
    order = [DOCS[0]] + rng.sample(DOCS[1:], rng.randint(0, 3))
    ids = ['x', 'y', 'fig:z', 'doc:b-dm', 'sec-1'][:rng.randint(2, 5)]
    ops, first = [], list(order)

    def ref(ctx):
        return dict(ctx=ctx, doc=rng.choice(order + ['zz.dm', 'bb.dm', 'b']) if rng.random() < .45 else '', id=rng.choice(ids + ['doc:a-dm', 'nope'] if rng.random() < .3 else ids))
    # references need their labels, which a reset removes
    refs = rng.random() < .5
    for _ in range(n):
        k = rng.random()
        if k < .4:
            q = rng.random()
            ops.append(dict(op='add', ctx=rng.choice(order), doc=rng.choice(order) if q < .25 else rng.choice(DOCS) if q < .3 else '', id=rng.choice(ids),
                            kinds=rng.choice([['p'], ['p', 'q'], ['q', 'r'], ['r'], ['figure']])))
        elif k < .6:
            ctx = rng.choice(order + [''])
            ops.append(dict(op='get', refs=[ref(ctx) for _ in range(1 if rng.random() < .6 else rng.randint(1, 3))]))
        elif k < .75:
            ops.append(dict(op='kind', doc=rng.choice(order + [''] * 3 + ['zz.dm']), kinds=[] if rng.random() < .3 else rng.sample(['p', 'q', 'r', 'heading', 'document', 'figure', 'none'], rng.choice([1, 1, 1, 2, 3]))))
        elif k < .82 and not refs:
            allx = rng.random() < .2
            ops.append(dict(op='reset', all=allx, docs=[] if allx else rng.sample(DOCS, rng.randint(1, 2))))
        else:
            old = list(order)
            if rng.random() < .5:
                order = [DOCS[0]] + rng.sample(DOCS[1:], rng.randint(0, 3))
            ch = set(d for d in order if d not in old)
            if order != old:
                ch.add(order[0])
            ch |= set(d for d in order if rng.random() < .3)
            changed = []
            for d in [d for d in order if d in ch]:
                items = [dict(tag=rng.choice('hcf'), id=i) for i in rng.sample(ids[:2] + ['s1', 's2', 's3'], rng.randint(0, 3))]
                changed.append(dict(doc=d, labels=[doclabel(d)] + [dict(id=i['id'], kinds=TAGK[i['tag']]) for i in items]))
            ops.append(dict(op='load', order=list(order), changed=changed))
    ops.append(dict(op='kind', doc='', kinds=[]))
    for i in ids[:2]:
        ops.append(dict(op='get', refs=[dict(ctx='', doc='', id=i)]))
        ops.append(dict(op='get', refs=[dict(ctx=order[-1], doc='', id=i)]))
    return dict(order=first, ops=ops, bare=rng.random() < .3, refs=refs)


def run(ctx):
    r = ctx.tlc('Labels', consts=consts(ctx.n(3, 4)), init='GInit', inv=['UniquePerDoc', 'OwnedOnly', 'Kept', 'QualifiedIsExact', 'PlainIsFirst', 'Emit'], workers=8)
    ctx.notes['generated'] = len(r['printed'])
    pr = ctx.rng.sample(r['printed'], min(len(r['printed']), ctx.n(500, 8000)))
    order = sorted(['a.dm', 'b.dm'], key=lambda d: d)
    cases = []
    for h in pr:
        cases.append(dict(order=order, bare=True, ops=[{k: v for k, v in o.items() if k != 'obs'} for o in h]))
    for i in range(ctx.n(500, 8000)):
        cases.append(history(ctx.rng, ctx.rng.randint(4, 25)))
    res = ctx.drive('labels', cases)
    traces = [r for c, r in ctx.settle(cases, res, 'label histories')]
    ctx.sample(traces[-1])
    ctx.validate('Labels', traces, 'label registry', consts=consts(0), workers=8)
    ctx.assume('a request for several kinds may list labels kind after kind or in document order',
               'labels of documents that are no longer included may be purged by the reload or by the next lookup')
