"""C08: target lists and output places (specs/Project.tla: Enabled, Outputs)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['tree', 'docs', 'outpaths'], ctx.n(200, 2500), 'targets', targets=.7, items=(0, 1), refs=0, tocs=0, none=.15, nfiles=(2, 6))
    g.check(ctx, ['docs', 'outpaths'], ctx.n(40, 400), 'rendered targets', build=True, targets=.7, items=(0, 1), refs=0, nfiles=(2, 4), edits=(1, 2), none=.15,
            restart=.3)
