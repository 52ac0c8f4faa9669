"""C14: cross references (specs/Project.tla: RefView)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['labels', 'refs', 'tree'], ctx.n(260, 3000), 'references', items=(1, 6), captions=.3, refs=.4, unknown=.02, targets=.25, badgraph=.1, removal=.1,
            ids=.6, dupl=.05)
