"""C04 a project edited and built again equals the project built from scratch (specs/Site.tla)."""
import gen_site as g


def run(ctx):
    g.model(ctx)
    g.check(ctx, [g.history(ctx.rng) for _ in range(ctx.n(70, 1500))])
