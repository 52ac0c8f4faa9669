"""C05: every load of an edited project shows what a fresh load of the same files shows (specs/Project.tla)."""
import gen_project as g


def run(ctx):
    ctx.tlc('Project', consts=dict(NF=3, MaxIncl=2), init='GInit', next='GNext', inv=['OnceEach'])
    g.check(ctx, ['tree', 'byid', 'docs', 'labels', 'anc', 'nav'], ctx.n(160, 1500), 'project reload', refs=.08, unknown=.02)
    ctx.assume('an edited file has a later modification time than its earlier version')
