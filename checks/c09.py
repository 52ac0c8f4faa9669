"""C09: numbers of labels over whole projects (specs/Project.tla: Labels)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['labels', 'docs', 'shown'], ctx.n(220, 2500), 'label numbers', items=(1, 9), captions=.35, refs=0, resets=.35, badgraph=.1, ids=.7, targets=.1)
