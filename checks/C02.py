"""Re-plan seam: prediction, published trajectory and what is applied."""
import rhcheck
import rhgen


def run(ctx):
    ctx.assumptions += rhcheck.ASSUME
    n = 1 if ctx.quick else 6
    jobs = rhgen.jobs(ctx.rng, 40*n, 'fixed', 14) + rhgen.jobs(ctx.rng, 24*n, 'free', 12)
    jobs += rhgen.dep_jobs(ctx.rng, 32*n, 14)
    rhcheck.drive(ctx, jobs, ['seam', 'published', 'applied'])


if __name__ == '__main__':
    import vlib
    vlib.main('C02', run)
