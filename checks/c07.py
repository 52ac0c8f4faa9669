"""C07: loads that fail are reported, on every attempt, and leave nothing behind (specs/Project.tla)."""
import gen_project as g


def run(ctx):
    g.check(ctx, ['tree', 'byid', 'docs', 'labels', 'nav', 'shown'], ctx.n(200, 2000), 'failing load', faults=.45, missing=.25, dupl=.1, edits=(4, 9), removal=.3,
            items=(0, 3), refs=.08, multi=.3)
    # faults at every position of fixed trees, followed by a load without repair and the repair
    g0 = g.Gen(ctx.rng, refs=0)
    ctx.assume('a repaired file has a later modification time than its faulty version')
