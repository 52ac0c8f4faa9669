"""C29 the preview server (specs/Server.tla)."""
import json
from gen_site import Site
OUTSIDE = ['/../secret%s', '/%%2e%%2e/secret%s', '/..%%2fsecret%s', '/html/../../secret%s', '/src/../../secret%s', '/BASE/secret%s', '/%%2e%%2e%%2fsecret%s', '/../my%%20p/../secret%s', '/media/../../../../../../../../../../..BASE/secret%s', '/./../secret%s', '/media/BASE/secret%s']
UNKNOWN = ['/nothing.html', '/html/nothing.html', '/src/nothing.dm', '/nothing.dm', '/tex/nothing.tex', '/nothing', '/media/nothing.css', '/html/sub/none/x.xhtml', '/nothing.epub', '/html/nothing%20here.txt', '/src/a.html', '/treee', '/html/a.pdf']


def tree(s):
    """the documents in their order, each with the document that includes it"""
    return [['a.dm', '']] + [[x, s.parent[x]] for x in s.docs if x != 'a.dm' and s.inside(x)]


def session(r):
    s = Site(r)
    s.custom = False
    s.files = {f: t for f, t in s.files.items() if not f.startswith('tpl:')}
    was = s.texts()
    case = dict(files=was, tree=tree(s), ops=[])
    bad = None
    for _ in range(r.randint(2, 5)):
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.choice(['page'] * 6 + ['list', 'list', 'file', 'source', 'path'])
            if k == 'path':
                kind = r.choice(['outside', 'unknown'])
                p = r.choice(OUTSIDE) % r.choice(['.dm', '.tex', '.html', '.txt', '.css']) if kind == 'outside' else r.choice(UNKNOWN)
                case['ops'].append(dict(op=k, kind=kind, path=p))
            else:
                case['ops'].append(dict(op=k, which=r.random(), now=r.random() < .9, again=r.random() < .7))
        for _ in range(r.choice([1, 1, 2])):
            s.edit()
        s.files = {f: t for f, t in s.files.items() if not f.startswith('tpl:')}
        now = s.texts()
        if bad:
            bad = None
        elif r.random() < .15:
            bad = r.choice(s.tree())
            now = dict(now, **{bad: now[bad] + r.choice(['\n@ref{nowhere}\n', '\n@img{gone.png}\n'])})
        ch = {f: now.get(f) for f in list(was) + list(now) if was.get(f) != now.get(f)}
        if ch:
            case['ops'].append(dict(op='edit', files=ch, tree=tree(s)))
        was = now
    case['ops'] += [dict(op='page', which=r.random(), now=True, again=True), dict(op='list')]
    return case


def run(ctx):
    r = ctx.tlc('Server', consts=dict(Edits=ctx.n(3, 4), Requests=ctx.n(4, 5)), init='Init', next='Next', inv=['Current', 'Failing', 'Recovers'], workers=8)
    ctx.notes['sessions of edits and requests'] = r['distinct']
    cases = [session(ctx.rng) for _ in range(ctx.n(45, 1000))]
    res = ctx.drive('server', cases, case_timeout=200)
    traces = [dict(x, orig=json.dumps(c)) for c, x in ctx.settle(cases, res, 'sessions')]
    ctx.sample(traces[0])
    ctx.validate('Server', traces, 'sessions', consts=dict(Edits=0, Requests=0), workers=8)
    ctx.assume('the server is started in the folder of the project', 'requests come one after another, edits between them')
