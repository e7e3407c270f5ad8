"""Fixed horizon: where now lies on the plan, and the first guess, for every schedule of re-plans."""
import rhcheck
import rhgen
MODE = "fixed"


def run(ctx):
    ctx.assumptions += rhcheck.ASSUME
    rhcheck.design(ctx)
    n = 1 if ctx.quick else 6
    jobs = rhgen.jobs(ctx.rng, 64*n, 'fixed', 16)
    jobs += [j for j in rhgen.dep_jobs(ctx.rng, 40*n, 12) if j[0]["mode"] == MODE]
    rhcheck.drive(ctx, jobs, ['horizon', 'guess'])


if __name__ == '__main__':
    import vlib
    vlib.main('C03', run)
