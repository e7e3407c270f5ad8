"""Distributed problems: what agents exchange and how they coordinate, iteration by iteration."""
import admm
import vlib

DESIGN = ('SPECIFICATION Spec\nCONSTANTS\n Agents = {%s}\n Nbr = {%s}\n MaxIter = %d\n PerUpdate = %d\n'
          ' MaxKnots = %d\n Barrier = %s\nINVARIANTS XUsesPrevious ZUsesPresent NothingLags\nCHECK_DEADLOCK FALSE\n')
PAIR, PATH, RING = '{1, 2}', '{1, 2}, {2, 3}', '{1, 2}, {2, 3}, {1, 3}'


def jobs(rng, n):
    out = []
    for k in range(n):
        kind = ('admm', 'admm', 'dd', 'rdv')[k % 4] if k % 8 else 'admm'
        N = rng.choice([2, 3, 3, 4]) if kind != 'dd' else rng.choice([2, 3])
        ki = rng.choice([2, 3, 4, 5, 7, 10])
        Ts = rng.choice([10, 20, 50])
        per = rng.choice([2, 3, 4, 6])            # samples in a knot interval
        H = ki*per*Ts/1000.
        cfg = {'kind': kind, 'N': N, 'vehicle': 'Holonomic3D' if rng.random() < .25 and kind != 'rdv' else 'Holonomic',
               'inter': rng.choice(['circular', 'full']), 'ki': ki, 'H': H, 'Ts_ms': Ts, 'upd': rng.choice([1, 2, 3]),
               'rho': rng.choice([(1, 2), (1, 1), (2, 1), (3, 1)]), 'init_iter': rng.choice([1, 2, 3]),
               'max_iter': rng.choice([1, 1, 2, 3]), 'obst': rng.random() < .3, 'separate': rng.random() < .3}
        o = {}
        if kind != 'dd' and rng.random() < .45:
            o['nesterov_acceleration'] = True
            o['nesterov_reset'] = rng.random() < .5
            if rng.random() < .3:
                o['AMA'] = True
        cfg['opts'] = o
        if rng.random() < .2:
            nd = 3 if cfg['vehicle'] == 'Holonomic3D' else 2
            cfg['dims'] = sorted(rng.sample(range(nd), rng.randint(1, nd-1)))
        acts = []
        for _ in range(rng.choice([4, 6, 8])):
            top = per*2 if rng.random() < .35 else per
            acts.append(('step', rng.randint(1, max(1, min(top, ki*per//2)))))
        if rng.random() < .4:
            acts.insert(rng.randint(1, len(acts)), ('restart',))
        out.append((cfg, rng.randint(0, 10**9), acts))
    return out


def run(ctx):
    ctx.assumptions += ['the agents\' own optimizations are answered by the harness with arbitrary plans',
                        'spline coefficients are re-expressed by scipy; values are compared on a grid of 1e-4',
                        'multipliers move along with the horizon the way coefficients do']
    small = [('1, 2', PAIR, 4, 2, 2), ('1, 2, 3', PATH, 2, 2, 1)]
    large = [('1, 2, 3', RING, 3, 2, 2), ('1, 2, 3, 4', PATH + ', {3, 4}, {1, 4}', 2, 2, 1)]
    for k, c in enumerate(small if ctx.quick else small + large):
        ctx.design('ADMM', DESIGN % (c + ('TRUE',)), name='ADMM_%d' % k, workers=8, timeout=1500, mem='8g')
    r = ctx.tlc('ADMM', DESIGN % (small[0] + ('FALSE',)), name='ADMM_nobarrier', workers=4)
    if 'is violated' not in r['out']:
        raise vlib.MachineryError('the protocol model does not tell phases apart')
    recs = []
    js = jobs(ctx.rng, 40 if ctx.quick else 240)
    for job, (st, r) in zip(js, vlib.parallel(admm.admm_run, js, 8, 400)):
        if st != 'ok':
            ctx.violation('protocol.crash', str(r)[-900:], {'job': job})
            continue
        recs.append(r)
    for r in recs[:3]:
        ctx.sample({'cfg': r['case']['cfg'], 'acts': r['case']['acts'], 'iterations': len(r['its'])})
    ctx.evals += sum(len(r['its']) for r in recs)
    if recs:
        ctx.judge('ADMMTrace', recs, shards=8, timeout=1500)
    ctx.log('%d fleets, %d iterations' % (len(recs), sum(len(r['its']) for r in recs)))


if __name__ == '__main__':
    vlib.main('C05', run)
