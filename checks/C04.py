"""Free end time: remaining motion time and guess shrink with the clock."""
import rhcheck
import rhgen
MODE = "free"


def run(ctx):
    ctx.assumptions += rhcheck.ASSUME
    n = 1 if ctx.quick else 6
    jobs = rhgen.jobs(ctx.rng, 64*n, 'free', 16)
    jobs += [j for j in rhgen.dep_jobs(ctx.rng, 40*n, 12) if j[0]["mode"] == MODE]
    rhcheck.drive(ctx, jobs, ['horizon', 'guess'])


if __name__ == '__main__':
    import vlib
    vlib.main('C04', run)
