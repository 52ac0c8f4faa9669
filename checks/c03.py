"""C03: builds stopped at any point, failures and damaged outputs, then built again (specs/Build.tla)."""
import gen_build as g
import gen_site


def run(ctx):
    g.model(ctx, (1, 2, 3), ctx.n(2, 3))
    cases = []
    for i in range(ctx.n(45, 900)):
        cases.append(g.Gen(ctx.rng).crashcase())
    for i in range(ctx.n(140, 1500)):
        cases.append(g.Gen(ctx.rng).case('tree', (8, 20), faults=.3, complete=.6, damage=.3))
    g.check(ctx, cases, 'interrupted builds')
    gen_site.check(ctx, [gen_site.history(ctx.rng, .7) for _ in range(ctx.n(24, 400))])
    ctx.assume('a process is stopped between two lines of the program; the files and records written until then stay')
