"""C11: enclosing headings of labels (specs/Project.tla: Register)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['labels', 'anc', 'shown'], ctx.n(220, 2500), 'enclosing headings', items=(1, 9), captions=.25, refs=0, badgraph=.1, inact=.15, nolabel=.1, targets=.1)
