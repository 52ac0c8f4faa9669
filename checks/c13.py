"""C13: tables of contents (specs/Project.tla: TocView)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['labels', 'tocs', 'toc'], ctx.n(220, 2500), 'table of contents', items=(0, 8), captions=.08, refs=0, tocs=.25, toc=.5, targets=.2, badgraph=.1)
