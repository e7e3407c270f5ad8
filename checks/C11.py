"""Obstacles move as announced: recorded motions, what the optimizer is told, copies and overrules."""
import copy
import math
import numpy as np
import vlib
from vlib import fix, fixl

og = None
P6, V5, A3, S6, S4 = 10**6, 10**5, 10**3, 10**6, 10**4
DESIGN = '''SPECIFICATION Spec
CONSTANTS MaxT=%d P0=3000 V0=8000 A0=50 J1=%d J2=%d
INVARIANTS Undivided Foretold BackAgain
CHECK_DEADLOCK FALSE
'''


def setup():
    global og
    if og is None:
        vlib.import_repo()
        import omgtools
        og = omgtools


def rd(x, q):
    return round(round(x*q)/q, 9)


def rnd(rng, a, q):
    return rd(rng.uniform(-a, a), q)


def kinematics(rng, d):
    """(initial, trajectories, jumps) for d coordinates"""
    ini = {'position': [rnd(rng, 3, 1000) for _ in range(d)]}
    if rng.random() < .6:
        ini['velocity'] = [rnd(rng, .5, 1000) for _ in range(d)]
    if rng.random() < .4:
        ini['acceleration'] = [rnd(rng, .2, 1000) for _ in range(d)]
    traj, s0 = {}, {k: list(ini.get(k, [0.]*d)) for k in ('position', 'velocity', 'acceleration')}
    jumps = []
    for key, amp in (('position', .5), ('velocity', .5), ('acceleration', .2)):
        if rng.random() < .45:
            n = rng.randint(1, 3)
            ts = sorted(rng.sample(range(1, 60), n))
            times = [t*.05 for t in ts]
            vals = [[rnd(rng, amp, 1000) for _ in range(d)] for _ in ts]
            if rng.random() < .4:
                times.insert(0, 0.)
                vals.insert(0, [rnd(rng, amp, 1000) for _ in range(d)])
                s0[key] = list(vals[0])
                jumps += [(int(round(t*100)), key, v) for t, v in zip(times[1:], vals[1:])]
            else:
                jumps += [(int(round(t*100)), key, v) for t, v in zip(times, vals)]
            traj[key] = {'time': times, 'values': vals}
    return ini, traj, s0, jumps


def shape(rng, d):
    if d == 3:
        return rng.choice([lambda: og.Sphere(.2), lambda: og.Cuboid(.3, .2, .4), lambda: og.RegularPrisma(.3, .4, 5)])()
    return rng.choice([lambda: og.Circle(.2), lambda: og.Rectangle(.4, .2), lambda: og.RegularPolyhedron(.3, 5), lambda: og.Beam(.6, .1)])()


def events(jumps, c):
    ev = {}
    for t, key, v in jumps:
        e = ev.setdefault(t, {'t': t, 'dp': 0, 'dv': 0, 'da': 0})
        if key == 'position':
            e['dp'] += fix(v[c], P6)
        elif key == 'velocity':
            e['dv'] += fix(v[c], V5)
        else:
            e['da'] += fix(v[c], A3)
    return [ev[t] for t in sorted(ev)]


def runrec(ob, s0, jumps, push, om, th0, step, n0, t0, case, stride=1):
    """the history of an obstacle from column n0 on; s0 is the state it had then"""
    d = ob.n_dim
    sig = ob.signals
    n = sig['position'].shape[1]
    idx = list(range(n0, n, stride))
    tt = np.asarray(sig['time'], float).ravel()
    tt = tt[len(tt)-n:]
    rec = {'type': 'run', 's0': [[fix(s0['position'][c], P6), fix(s0['velocity'][c], V5), fix(s0['acceleration'][c]+push[c], A3)] for c in range(d)],
           'ev': [events(jumps, c) for c in range(d)], 't0': t0, 't': [int(round(tt[k]*100)) for k in idx], 'step': step*stride,
           'p': [fixl(sig['position'][c, idx], P6) for c in range(d)], 'v': [fixl(sig['velocity'][c, idx], V5) for c in range(d)],
           'a': [fixl(sig['acceleration'][c, idx], A3) for c in range(d)], 'push': [fix(q, A3) for q in push],
           'th0': fix(th0, S6), 'om': fix(om, S6), 'th': [], 'tol': 60, 'case': case}
    if 'orientation' in sig:
        rec['th'] = [fix(q, S6) for q in sig['orientation'][0, idx]]
    return rec


def job_run(args):
    """a random environment, simulated in random portions"""
    import random
    seed, = args
    rng = random.Random(seed)
    setup()
    dim = rng.choice([2, 2, 3])
    Ts = rng.choice([1, 1, 2, 5, 10])
    obs, out, want = [], [], []
    shared = {'position': [.5]*dim} if rng.random() < .25 else None
    for k in range(rng.randint(1, 3)):
        d = 2 if dim == 3 and rng.random() < .2 else dim
        ini, traj, s0, jumps = kinematics(rng, d)
        if shared is not None and d == dim:
            # the same dictionary describes where several obstacles start
            ini = shared
            s0.update({'position': traj['position']['values'][0] if traj.get('position', {}).get('time', [1.])[0] == 0. else [.5]*d})
            for q in ('velocity', 'acceleration'):
                if not (q in traj and traj[q]['time'][0] == 0.):
                    s0[q] = [0.]*d
        om, th0 = 0., 0.
        if d == 2:
            if rng.random() < .5:
                th0 = rnd(rng, 3, 1000)
                ini['orientation'] = th0 if rng.random() < .5 else np.array([th0])
            if rng.random() < .4:
                om = rnd(rng, 1.5, 1000)
                ini['angular_velocity'] = om
            if ini is shared:
                om, th0 = [float(np.ravel(ini.get(q, 0.))[0]) for q in ('angular_velocity', 'orientation')]
        push = [0.]*d
        sim = {}
        if traj:
            sim['trajectories'] = copy.deepcopy(traj)
        if rng.random() < .3:
            # a constant push through the input of the simulation model
            push = [rnd(rng, .2, 1000) for _ in range(d)]
            Bm = np.zeros((3*d, d))
            Bm[d:2*d, :] = np.eye(d)
            sim['model'] = {'B': Bm}
            sim.setdefault('trajectories', {})['input'] = {'time': [0., 1.], 'values': [push, push]}
        ob = og.Obstacle(ini, shape=shape(rng, d), simulation=sim)
        obs.append(ob)
        want.append((s0, jumps, push, om, th0))
    room = {'shape': og.Square(20.) if dim == 2 else og.Cube(20.)}
    with vlib.quiet():
        import warnings
        warnings.simplefilter('ignore')
        env = og.Environment(room=room, obstacles=obs)
    case = {'key': 'run/%dD%s' % (dim, '/shared' if shared else ''), 'seed': seed, 'Ts': Ts}
    twin = env.copy() if rng.random() < .5 else None
    def go(e, total):
        left = total
        while left:
            n = min(left, rng.choice([1, 1, 2, 5, 10, 20]))
            e.simulate(n*Ts*.01, Ts*.01)
            left -= n
    total = rng.randint(5, max(6, 400//Ts))
    fresh = [dict(h) for h in [o.signals for o in twin.obstacles]] if twin else None
    go(env, total)
    if twin:
        for f, o in zip(fresh, twin.obstacles):
            out.append({'type': 'same', 'a': [int(np.asarray(f[q]).size) for q in sorted(f)],
                        'b': [int(np.asarray(o.signals[q]).size) for q in sorted(f)], 'clause': 'copy.moved', 'info': 'a copy moves with the original', 'case': case})
        go(twin, total)
    stride = max(1, total//60)
    for e, nm in ((env, 'original'), (twin, 'copy')):
        if e is None:
            continue
        for ob, (s0, jumps, push, om, th0) in zip(e.obstacles, want):
            out.append(runrec(ob, s0, jumps, push, om, th0, Ts, 0, 0, dict(case, who=nm), stride))
    # overrule what the obstacles do: they go on from there
    if rng.random() < .6:
        for k, ob in enumerate(env.obstacles):
            d = ob.n_dim
            st = {'position': [rnd(rng, 3, 1000) for _ in range(d)]}
            if rng.random() < .7:
                st['velocity'] = [rnd(rng, .5, 1000) for _ in range(d)]
            if rng.random() < .4:
                st['acceleration'] = [rnd(rng, .2, 1000) for _ in range(d)]
            om = th0 = 0.
            if d == 2 and rng.random() < .6:
                th0, om = rnd(rng, 3, 1000), rnd(rng, 1, 1000)
                st['orientation'], st['angular_velocity'] = [th0], [om]
            ob.set_state(st)
            t0 = int(round(float(np.ravel(ob.signals['time'])[-1])*100))
            s0 = {q: st.get(q, [0.]*d) for q in ('position', 'velocity', 'acceleration')}
            _, jumps, push, _, _ = want[k]
            m = rng.randint(3, 30)
            for _ in range(m):
                ob.simulate(Ts*.01, Ts*.01)
            # the column that was overruled counts from now on
            out.append(runrec(ob, s0, [j for j in jumps if j[0] > t0], push, om, th0, Ts, 0, t0, dict(case, who='overruled'), 1))
    return out


def job_told(args):
    """the motion the optimizer is told, anywhere in the horizon, from what the obstacle reports about itself"""
    import random
    from casadi import MX, Function, vertcat
    seed, = args
    rng = random.Random(seed)
    setup()
    dim = rng.choice([2, 2, 2, 3])
    ini = {'position': [rnd(rng, 3, 1000) for _ in range(dim)], 'velocity': [rnd(rng, .5, 1000) for _ in range(dim)],
           'acceleration': [rnd(rng, .2, 1000) for _ in range(dim)]}
    H = rng.choice([2., 4., 5., 6., 10.])
    opts = {}
    om = th = 0.
    if dim == 2:
        th = rnd(rng, 3, 1000)
        ini['orientation'] = np.array([th])
        if rng.random() < .7:
            om = rng.choice([rnd(rng, 2, 1000), rd(rng.choice([1, -1])*math.pi/rng.choice([2, 3, 4, 5, 6, 8, 10, 12]), 10**9)]) or .3
            ini['angular_velocity'] = np.array([om])
            opts['horizon_time'] = H
    ob = og.Obstacle(ini, shape=shape(rng, dim), options=opts)
    nseg = rng.choice([1, 1, 2, 3]) if om == 0. else 1
    case = {'key': 'told/%dD/%s/%d' % (dim, 'turning' if om else 'fixed', nseg), 'seed': seed}
    # the obstacle first moves a bit: what it is now counts
    n = rng.choice([0, 0, 1, 7, 30])
    for _ in range(n):
        ob.simulate(.05, .05)
    sig = ob.signals
    now = {q: np.asarray(sig[q])[:, -1] for q in ('position', 'velocity', 'acceleration')}
    thn = float(sig['orientation'][0, -1]) if dim == 2 else 0.
    ticks = rng.choice([0, 0, 5, 10, 37, 80])          # time since the knot (10 ms)
    t = ticks*.01
    Hs = [rd(H*q, 100) for q in (1., .5, .75)][:nseg]
    if nseg > 1 or rng.random() < .3:
        hs = [MX(h) for h in Hs]
        ob.init(horizon_times=hs)
        Tval = Hs[0]
    else:
        ob.init()
        Tval = H
    sy = {}
    exprs = [ob.pos_spline[k].coeffs for k in range(dim)]
    turning = dim == 2 and om != 0.
    if turning:
        exprs += [ob.cos.coeffs, ob.sin.coeffs]
    ex = vertcat(*[MX(e) if not isinstance(e, MX) else e for e in exprs])
    from casadi import symvar
    par = ob.set_parameters(0.)[ob]
    vals = []
    syms = symvar(ex)
    for s in syms:
        nm = s.name()
        hit = [q for q in par if nm == q or nm.startswith(q + '_') or nm.endswith('_' + q)]
        known = {'t': t, 'T': Tval}
        key = None
        for store in ('_parameters', '_symbols'):
            for q, m in getattr(ob, store).items():
                if m.name() == nm:
                    key = q
        vals.append(par[key] if key in par else known[key])
    F = Function('f', syms, [ex])
    co = np.array(F(*vals)).ravel() if syms else np.array(Function('f', [], [ex])()['o0']).ravel()
    from scipy.interpolate import BSpline as SB
    # the last segment starts where the others end
    s_start = sum(Hs[:-1]) if nseg > 1 else 0.
    Hl = Hs[-1] if nseg > 1 else Tval
    taus = sorted(set([int(round((s_start-t)*100)), int(round((s_start+Hl-t)*100))] + [int(round((s_start-t+Hl*rng.random())*100)) for _ in range(12)]))
    taus = [q for q in taus if -1e-9 <= (t + q*.01 - s_start)/Hl <= 1+1e-9]
    pos, off = [], 0
    def ev(basis, c, x):
        return SB(np.asarray(basis.knots, float), np.asarray(c, float), basis.degree)(np.clip(x, basis.knots[0], basis.knots[-1]))
    xs = np.array([(t + q*.01 - s_start)/Hl for q in taus])
    for k in range(dim):
        b = ob.pos_spline[k].basis
        pos.append(fixl(ev(b, co[off:off+len(b)], xs), P6))
        off += len(b)
    cw, sw = [], []
    if turning:
        w = ev(ob.gon_weight.basis, np.asarray(ob.gon_weight.coeffs, float).ravel(), xs)
        for b, dst in ((ob.cos.basis, cw), (ob.sin.basis, sw)):
            dst += fixl(ev(b, co[off:off+len(b)], xs)/w, S4)
            off += len(b)
    elif dim == 2:
        cw, sw = [fix(ob.cos, S4)]*len(taus), [fix(ob.sin, S4)]*len(taus)
    return [{'type': 'told', 's': [[fix(now['position'][k], P6), fix(now['velocity'][k], V5), fix(now['acceleration'][k], A3)] for k in range(dim)],
             'tau': taus, 'p': pos, 'th': fix(thn, S6), 'om': fix(om, S6), 'cw': cw, 'sw': sw, 'case': case}]


def job(a):
    return (job_run if a[0] == 'run' else job_told)(a[1:])


def run(ctx):
    setup()
    for k, (m, a, b) in enumerate([(200, 30, 75), (260, 50, 100)] if ctx.quick else [(400, 30, 75), (500, 50, 100), (500, 37, 38)]):
        ctx.design('ObstacleModel', DESIGN % (m, a, b), name='ObstacleModel_%d' % k, workers=8)
    f = 1 if ctx.quick else 12
    jobs = [('run', ctx.rng.randrange(10**9)) for _ in range(160*f)] + [('told', ctx.rng.randrange(10**9)) for _ in range(240*f)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 120)):
        if st != 'ok':
            ctx.violation('motion.raises', str(r)[-900:], {'key': j[0], 'job': list(j)})
        else:
            recs += r
    ctx.judge('ObstacleTrace', recs, shards=8)
    ctx.evals = len(recs)
    ctx.assumptions += ['obstacles that bounce are not judged here', 'jumps that coincide with a sample may count before or after it']
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('type', 's0', 'ev', 'case') if k in r})


if __name__ == '__main__':
    vlib.main('C11', run)
