"""C12: previous/next navigation (specs/Project.tla: NavView)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['tree', 'nav'], ctx.n(260, 3000), 'navigation', items=(0, 2), refs=0, captions=.15, targets=.6, nfiles=(2, 7), removal=.3)
