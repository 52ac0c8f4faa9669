"""C31 tables of data (specs/Tables.tla)."""
import json
WORDS = ['one', 'two', '3.5', 'x', 'A', 'été', 'R&D', '& so', 'n/a', '@b{bold}', '@i{slanted words}', '@b{x}y', '12', 'z', 'a@b{c}d']


def cell(r, plain=False):
    k = r.random()
    if k < .12:
        return ''
    s = ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 1, 2])))
    if not plain and r.random() < .2:
        s = r.choice([s + ', ' + s, 'say "' + s + '" x', s + '\nmore', '@b{one, two}', s + '\n', 'a\tb', '" x' + s, '5" y'])
    return s


def write(r, rows, delim):
    """the text of data"""
    indent = r.choice(['', '', '  ', '     '])
    blank = r.choice([[''], ['', '   ']])
    out, often = [], r.random() < .2
    for row in rows:
        line = []
        for c in row:
            q = delim in c or '"' in c or '\n' in c or r.random() < .15
            line.append(r.choice(['', ' ']) + ('"%s"' % c.replace('"', '""') if q else c + r.choice(['', '', ' '])))
        if len(row) == 1 and not row[0]:
            continue
        out.append(indent + delim.join(line))
        if often and r.random() < .5:
            out.append(r.choice(blank))
    s = '\n'.join(out)
    return r.choice(['', '', '\n', '\n\n']) + s + r.choice(['', '\n', '\n  '])


def data(r):
    tag = r.choice(['csv', 'csv', 'csv', 'tsv'])
    delim = '\t' if tag == 'tsv' else ','
    w = r.choice([1, 2, 2, 3, 4])
    n = r.choice([1, 1, 2, 2, 3, 5])
    same = r.random() < .75
    rows = []
    for _ in range(n):
        k = w if same else max(1, w + r.choice([0, 0, 1, -1, 2]))
        rows.append([cell(r) for _ in range(k)])
    if len(rows[0]) == 1 and not rows[0][0]:
        rows[0] = ['x']
    if r.random() < .3:
        # columns with the same name
        for i in range(1, len(rows[0])):
            if r.random() < .5:
                rows[0][i] = rows[0][r.randrange(i)]
        if len(rows[0]) == 1 and not rows[0][0]:
            rows[0] = ['x']
    s = write(r, rows, delim)
    if not s.strip():
        s = 'x'
    f = r.choice(['', '', 'd%d_%d.csv', 'sub/d%d_%d.txt', 'my d%d_%d'])
    return dict(tag=tag, header=r.random() < .65, text=list(s), file=f, newline=r.choice(['\n', '\n', '\r\n']), around=r.choice(['', ' ', '\n  ']))


def case(r):
    tables = []
    for _ in range(r.randint(1, 2)):
        d = [data(r) for _ in range(r.choice([1, 1, 1, 2]))]
        tag = r.choice(['table', 'table', 'tbl', 'margintable', 'margintbl', 'fulltable', 'ftbl', 'fulltbl'])
        cap = r.choice([-1, -1, 0, len(d)])
        tables.append(dict(tag=tag, data=d, caption=cap, attrs=r.choice(['', '', '[class=wide]'] + ['[id=tab:%d]' % len(tables)] * (cap >= 0)), sep=r.choice(['', '\n', '\n  ']), after=r.choice(['\n\n', ' after\n\n', '\n'])))
    return dict(tables=tables)


def run(ctx):
    r = ctx.tlc('Tables', consts=dict(MaxRows=ctx.n(2, 2), MaxCols=ctx.n(2, 3), Kinds=set(range(1, ctx.n(6, 7)))), init='Init', next='Next', inv=['SameTable', 'AllShown'], workers=8)
    ctx.notes['written tables'] = r['distinct']
    cases = [case(ctx.rng) for _ in range(ctx.n(600, 9000))]
    res = ctx.drive('tables', cases)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'tables')]
    ctx.sample(traces[-1])
    ctx.validate('Tables', traces, 'tables', consts=dict(MaxRows=0, MaxCols=0, Kinds={1}), workers=8)
    ctx.assume('quotes in data are closed, and have nothing but the delimiter after them', 'white space at the ends of cells is free, a line end in a cell is white space')
