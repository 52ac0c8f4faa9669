"""C30 projects made from starters (specs/Starter.tla)."""
import json
FILES = ['src/a.dm', 'src/b c.dm', 'src/deep/er/c.dm', 'x.png', '.hidden', 'src/.keep', 'notes.txt', 'src/description.txt', 'starters/z.dm', 'a', 'src/a.dm.bak', 'html/index.html', 'README']
SHIPPED = ['books/tufte/textbook1', 'articles/basic/essay1', 'reports/basic/report1', 'books/novel/novel1', 'books/tufte/textbook2']


def content(r, k):
    return r.choice(['', 'x', 'text %d\n' % k, '\x00\xff\x89PNG\r\n\x1a%d' % k, '---\ntargets: html\n---\n%d' % k, 'z' * 70000 + str(k)])


def case(r):
    starters = []
    for k, place in enumerate(r.sample(['mine/starters/one', 'mine/starters/two', 'mine/deep/starters/one', 'books/tufte/starters/extra', 'mine/starters/group/three', 'starters/alone'], r.randint(1, 3))):
        fs = {f: content(r, k * 100 + i) for i, f in enumerate(r.sample(FILES, r.randint(1, 6)))}
        if 'starters/z.dm' in fs and r.random() < .5:
            fs['src/starters.dm'] = fs.pop('starters/z.dm')
        starters.append(dict(place=place, files=fs, folders=[f for f in ('empty', 'src/none') if r.random() < .2],
                             description='title: Title %d\ndescription: |\n  A starter %s\n' % (k, r.choice(['', '\n  with a second line']))))
    names = ['/'.join(x for x in s['place'].split('/') if x != 'starters') for s in starters]
    dests = ['out', 'other out', 'deep/out']
    files = {}
    for d in dests:
        if r.random() < .5:
            for f in r.sample(FILES + ['mine.txt'], r.randint(1, 3)):
                if f == 'a' or not any(g == f for g in files):
                    files[d + '/' + f] = 'kept ' + f
    files['outside.txt'] = 'kept'
    ops = []
    for _ in range(r.randint(1, 6)):
        d = r.choice(dests[:2] if r.random() < .7 else dests)
        if r.random() < .12:
            ops.append({'for': 'edit', 'dest': d, 'file': r.choice(FILES), 'text': 'edited'})
            continue
        op = {'for': r.choice(['clone'] * 8 + ['tell', 'list']), 'dest': d, 'name': r.choice(names * 3 + SHIPPED + ['nothing', 'mine', 'mine/starters/one', names[0] + '/', names[0].upper(), '..', '.', 'tufte']),
              'ask': r.random() < .75, 'answer': r.choice(['yes', 'no', 'no', 'end']), 'inside': r.random() < .3, 'how': r.randrange(3)}
        if op['for'] == 'list' and r.random() < .5:
            op['name'] = ''
        op['say'] = {'yes': r.choice(['y\n', 'yes\n', 'Y\n', 'what\ny\n']), 'no': r.choice(['n\n', '\n', 'no\n', 'N\n', 'x\nn\n']), 'end': ''}[op['answer']]
        ops.append(op)
    # places that hold a file and a folder of the same name are not made
    return dict(starters=starters, files=files, folders=dests, ops=ops, width=r.choice([80, 80, 40, 200]))


def run(ctx):
    r = ctx.tlc('Starter', consts=dict(Files={'"f"', '"g"', '"h"'} if not ctx.quick else {'"f"', '"g"'}, Commands=2), spec='Spec', inv=['Complete', 'Untouched', 'Confirmed', 'OnlyItsFiles'], props=['AllEnd'], workers=8)
    ctx.notes['folders, starters and commands'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(250, 3000))]
    res = ctx.drive('starter', cases)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'starters')]
    ctx.sample([x for t in traces for x in t['steps'] if x['e'] == 'command'][0])
    ctx.validate('Starter', traces, 'starters', consts=dict(Files={'"f"'}, Commands=0), workers=8)
    ctx.assume('a starter is not inside another starter', 'a folder does not hold a file where a starter has a folder, or the other way round')
