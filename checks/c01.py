"""C01: single build steps under every order of editing, deleting, restoring, building and restarting (specs/Build.tla)."""
import gen_build as g


def run(ctx):
    g.model(ctx, (1, 3) if ctx.quick else (1, 2, 3), ctx.n(1, 3))
    cases = []
    for i in range(ctx.n(420, 5000)):
        cases.append(g.Gen(ctx.rng).case('single', (6, 25)))
    for i in range(ctx.n(60, 1000)):
        cases.append(g.Gen(ctx.rng).case('tree', (6, 18), faults=.1))
    g.check(ctx, cases, 'build steps')
    ctx.assume('outputs are not edited by others while a build runs', 'a step whose command ends well without an output counts as ended well once the output is present')
