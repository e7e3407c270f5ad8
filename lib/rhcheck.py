"""shared by the receding horizon checks: design model, random runs of the real loop, TLC's verdict"""
import vlib
import rh
import rhgen

DESIGN = ('SPECIFICATION Spec\nCONSTANTS\n N = %d\n K = %d\n Upd = %d\n Steps = {%s}\n MaxT = %d\n Start = %d\n'
          'INVARIANTS ClockAgrees HistoryOrdered SourceInPast TInKnot PlanCoversNow PredictsNow\n'
          'PROPERTY OriginForward\nCHECK_DEADLOCK FALSE\n')


def design(ctx):
    small = [(8, 2, 3, (3, 1, 5), 14, 0), (6, 3, 1, (1, 2), 12, 5), (9, 3, 4, (4, 6, 3), 18, 2)]
    large = [(12, 3, 2, (1, 2, 4, 7), 18, 0), (10, 5, 3, (1, 3, 5), 20, 7), (12, 4, 5, (5, 2, 8, 1), 20, 1)]
    for k, (N, K, U, S, M, st) in enumerate(small if ctx.quick else small + large):
        ctx.design('RecHorizon', DESIGN % (N, K, U, ', '.join(map(str, S)), M, st), name='RecHorizon_%d' % k,
                   workers=8, timeout=1500, mem='8g')


def drive(ctx, jobs, props, fn=None, timeout=400):
    recs = []
    for job, (st, r) in zip(jobs, vlib.parallel(fn or rh.simrun, jobs, 8, timeout)):
        if st != 'ok':
            ctx.violation(props[0] + '.crash', str(r)[-900:], {'job': job})
            continue
        r['props'] = props
        recs.append(r)
    for r in recs[:3]:
        ctx.sample({'cfg': r['case']['cfg'], 'acts': r['case']['acts'],
                    'first_update': {k: r['ev'][0][k] for k in ('now', 'first', 't', 'T')}})
    ctx.evals += sum(len(r['ev']) for r in recs)
    if recs:
        ctx.judge('RHTrace', recs, shards=8, timeout=1500)
    ctx.log('%d runs, %d events' % (len(recs), sum(len(r['ev']) for r in recs)))
    return recs


ASSUME = ['the optimizer is replaced by a stand-in that answers with arbitrary plans (and by IPOPT in some runs)',
          'plans are evaluated from their raw coefficients by scipy, independently of the tool',
          'values are compared on a grid of 1e-4 (states) and 1e-6 s (time)',
          'TLC is trusted to evaluate the specification']
