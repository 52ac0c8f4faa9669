"""C06: includes give a finite tree with each document once, in order (specs/Project.tla)."""
import gen_project as g

NAMES = 'abcd'


def graph_case(gr, g0, incl):
    files = [g0.blank([NAMES[i]]) for i in range(len(incl))]
    for f, inc in zip(files, incl):
        f['incl'] = [[NAMES[j - 1] + '.dm'] for j in inc]
    return [dict(op='write', p=f['base'] + '.dm', f=f) for f in files]


def run(ctx):
    want = ['tree', 'byid']
    g0 = g.Gen(ctx.rng)
    graphs = []
    for nf, mi in ((3, 2), (4, 1)) if ctx.quick else ((3, 3), (4, 2)):
        r = ctx.tlc('Project', consts=dict(NF=nf, MaxIncl=mi), init='GInit', next='GNext', inv=['OnceEach', 'GEmit'], workers=8)
        graphs += [x['incl'] for x in r['printed']]
    ctx.coverage_extra['include_graphs'] = len(graphs)
    ctx.rng.shuffle(graphs)
    # histories over the generated graphs: each case walks through several graphs, rewriting only what differs
    cases = []
    k = 6
    for i in range(0, min(len(graphs), ctx.n(1800, 9000)), k):
        steps, last = [], {}
        for incl in graphs[i:i + k]:
            for w in graph_case(None, g0, incl):
                if last.get(w['p']) != w['f']:
                    last[w['p']] = w['f']
                    steps.append(w)
            steps.append(dict(op='load'))
        cases.append(dict(root=['a.dm'], steps=steps, want=want))
    g.check(ctx, want, ctx.n(120, 1200), 'include tree', extra=cases, items=(0, 1), refs=0, badgraph=.8, nfiles=(3, 7), targets=.05)
