"""Clock, histories and stored plans agree, whatever happens in which order."""
import rhcheck
import rhgen


def run(ctx):
    ctx.assumptions += rhcheck.ASSUME
    rhcheck.design(ctx)
    n = 1 if ctx.quick else 6
    jobs = rhgen.jobs(ctx.rng, 40*n, 'fixed', 14) + rhgen.jobs(ctx.rng, 24*n, 'free', 12)
    rhcheck.drive(ctx, jobs, ['clock'])


if __name__ == '__main__':
    import vlib
    vlib.main('C01', run)
