"""C02: chains and parallel groups of build steps, all completion orders and failures (specs/Build.tla)."""
import gen_build as g


def run(ctx):
    g.model(ctx, (1, 2, 3), ctx.n(1, 3))
    cases = []
    for i in range(ctx.n(330, 4000)):
        cases.append(g.Gen(ctx.rng).case('tree', (6, 25), faults=.3))
    for i in range(ctx.n(40, 400)):
        cases.append(g.Gen(ctx.rng).timecase())
    g.check(ctx, cases, 'composite builds')
    ctx.assume('when finished steps are removed from a composite build (the default), one composite stands for one build of the sources as they are',
               'no progress is demanded of a group of which a member is missing or failing')
