"""C15: inheritance of header values (specs/Project.tla: Inherit)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['tree', 'docs'], ctx.n(260, 3000), 'header values', items=(0, 1), refs=0, vals=.5, resets=.4, inact=.3, titles=.4, shorts=.4, targets=.4,
            nfiles=(2, 6), edits=(3, 8))
