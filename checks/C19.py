"""Vehicle models: a published motion obeys the vehicle's own equations of motion, from where it is."""
import math
import random
import numpy as np
import vlib
from vlib import fix, fixl
import rh
og = None
S6, S4 = 1000000, 10000


def setup():
    global og
    og = vlib.import_repo()
    rh.setup()
    global BSpline
    from omgtools.basics.spline import BSpline


# kind: model, pose, number of positions, angle states (1-based), bounds of the coefficients per spline
def smooth(rng, n, lo, hi, rough):
    """a random walk inside [lo, hi]"""
    x = [rng.uniform(lo, hi)]
    for _ in range(n-1):
        x.append(min(hi, max(lo, x[-1] + rough*(hi-lo)*rng.uniform(-1, 1))))
    return np.array(x)


def make(kind, rng):
    """vehicle, model record, function giving random spline coefficients"""
    ki = rng.choice([4, 5, 10])
    L = round(rng.uniform(0.2, 1.2), 4)
    m = {'len4': 1}
    T = ki*0.02*rng.randint(4, 60//ki + 4)
    if kind == 'Holonomic':
        v = og.Holonomic(); m.update(kind='direct', pose='xy0'); b = [(-2, 2)]*2; ang = []
    elif kind == 'Holonomic1D':
        v = og.Holonomic1D(); m.update(kind='direct', pose='x00'); b = [(-2, 2)]; ang = []
    elif kind == 'Holonomic3D':
        v = og.Holonomic3D(og.Sphere(0.2)); m.update(kind='direct', pose='xyz000'); b = [(-2, 2)]*3; ang = []
    elif kind == 'HolonomicOrient':
        v = og.HolonomicOrient(); m.update(kind='direct', pose='self'); b = [(-2, 2)]*2 + [(-1.5, 1.5)]; ang = [3]
    elif kind == 'Dubins':
        v = og.Dubins(); m.update(kind='dubins', pose='self'); b = [(-0.3, 0.6), (-1.5, 1.5)]; ang = [3]
    elif kind == 'AGV':
        v = og.AGV(length=L); m.update(kind='agv', pose='xyt', len4=fix(L, S4)); b = [(0.15, 0.6), (-1.2, 1.2)]; ang = [3, 4]
    elif kind == 'Bicycle':
        v = og.Bicycle(length=L); m.update(kind='bicycle', pose='xyt', len4=fix(L, S4)); b = [(0.15, 0.6), (-1.2, 1.2)]; ang = [3, 4]
    elif kind == 'Quadrotor':
        v = og.Quadrotor(0.2); m.update(kind='quad2', pose='quad2'); b = [(-1, 1)]*2; ang = [5]
        T = max(T, 4.)
    elif kind == 'SimpleQuadrotor3D':
        v = og.SimpleQuadrotor3D(0.2); m.update(kind='quad3', pose='quad3'); b = [(-1, 1)]*3; ang = [7, 8]
        T = max(T, 4.)
    elif kind == 'Quadrotor3D':
        v = og.Quadrotor3D(0.2, options={'substitution': False}); m.update(kind='quad3', pose='quad3')
        b = [(8., 11.), (-.3, .3), (-.3, .3)]; ang = [7, 8]
    elif kind == 'Trailer':
        lead = og.Dubins(og.Circle(0.2))
        lead.define_knots(knot_intervals=ki)
        v = og.Trailer(lead_veh=lead, l_hitch=L); m.update(kind='trailer', pose='self', len4=fix(L, S4))
        b = [(-1.2, 1.2), (0., 0.5), (-1.2, 1.2)]; ang = [3, 6]
    v.define_knots(knot_intervals=ki)
    n = len(v.basis)
    rough = rng.choice([.15, .3, .6]) if kind in ('AGV', 'Bicycle') else rng.choice([.1, .3, .8])
    if kind in ('Quadrotor', 'SimpleQuadrotor3D'):
        rough = .15
    T = round(round(T/(ki*0.02))*ki*0.02, 6)
    def coefs():
        r = rough
        while True:
            c = np.array([smooth(rng, n, lo, hi, r) for lo, hi in b]).T
            if kind not in ('AGV', 'Bicycle') or steady(v, c, T, L):
                return c
            r *= .8
    return v, m, coefs, T, ang


def steady(v, c, T, L):
    """the steering angle stays below 60 degrees and turns slower than 3 rad/s"""
    x = np.linspace(0, 1, 200)
    w, g, dg = (rh.bspl(v.knots, c[:, k], v.degree, x, nu)/T**nu for k, nu in ((0, 0), (1, 0), (1, 1)))
    d = np.arctan2(2*dg*L, w*(1+g**2)**2)
    return np.abs(d).max() < 1. and np.abs(np.diff(d)).max()*199/T < 3.


KINDS = ['Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient', 'Dubins', 'AGV', 'Bicycle', 'Quadrotor',
         'SimpleQuadrotor3D', 'Quadrotor3D', 'Trailer']
INTEGRATING = {'Dubins': 2, 'AGV': 2, 'Bicycle': 2, 'Trailer': 5, 'Quadrotor3D': 6}


def start_state(kind, rng, c):
    p = lambda: round(rng.uniform(-3, 3), 4)
    th = lambda k: 2*math.atan(c[0, k])
    if kind == 'Dubins':
        return [p(), p(), th(1)]
    if kind in ('AGV', 'Bicycle'):
        return [p(), p(), th(1), 0.]
    if kind == 'Quadrotor3D':
        return [p(), p(), p(), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), th(1), th(2)]
    if kind == 'Quadrotor':
        return [p(), p()]
    if kind == 'SimpleQuadrotor3D':
        return [p(), p(), p(), 0., 0., 0., 0., 0.]
    return [p() for _ in range({'Holonomic1D': 1, 'Holonomic3D': 3, 'HolonomicOrient': 3}.get(kind, 2))]


def set_start(v, kind, st, rng):
    if kind == 'Trailer':
        v.lead_veh.set_initial_conditions(np.array(st[3:6]))
        v.lead_veh.set_terminal_conditions([1., 1., 0.2])
        v.set_initial_conditions(st[2])
    else:
        v.set_initial_conditions(np.array(st, float))
        goal = {'Holonomic1D': 1, 'Holonomic3D': 3, 'HolonomicOrient': 3, 'Dubins': 3, 'AGV': 3, 'Bicycle': 3,
                'SimpleQuadrotor3D': 3, 'Quadrotor3D': 3}.get(kind, 2)
        v.set_terminal_conditions(np.array([round(rng.uniform(-1, 1), 4) for _ in range(goal)]))


def pubrec(v, m, kind, h, start, ang, T, extra):
    tr = v.trajectories
    s = np.asarray(tr['state'], float).T
    u = np.asarray(tr['input'], float).T
    skip = []
    if kind == 'Trailer':
        skip = [1, 2, 3]        # a random trailer angle does not follow from the pulling vehicle
    rec = {'type': 'traj', 'm': m, 'h2': fix(2*h, S4), 's': [fixl(r, S6) for r in s], 'u': [fixl(r, S4) for r in u],
           'pose': [fixl(r, S6) for r in np.asarray(tr['pose'], float).T],
           'start': fixl(start, S6), 'center': [], 'rel': [], 'turn': False, 'ang': ang, 'skip': skip,
           'n': int(round(T/h)) + 1, 'tol': 25, 'case': extra}
    if 'fleet_center' in tr:
        rec['center'] = [fixl(r, S6) for r in np.asarray(tr['fleet_center'], float).T]
        rec['rel'] = fixl(np.ravel(v.rel_pos_c), S4)
        rec['turn'] = kind == 'Dubins'
    return rec


def seamrec(v, kind, par, basis_vals, pub, extra):
    """basis_vals(nu) -> row of spline derivatives at the moment of the re-plan; pub: published state there"""
    p = dict(par[v])
    b0, b1, b2 = basis_vals(0), basis_vals(1), basis_vals(2)
    w = {}
    if kind in ('Holonomic', 'Holonomic1D', 'Holonomic3D'):
        w = {'state0': b0, 'input0': b1}
    elif kind == 'HolonomicOrient':
        w = {'pos0': b0[:2], 'tg_ha0': b0[2:], 'vel0': b1[:2], 'dtg_ha0': b1[2:]}
    elif kind in ('Dubins', 'AGV', 'Bicycle'):
        w = {'pos0': pub[:2], 'v_til0': b0[:1], 'tg_ha0': b0[1:], 'dtg_ha0': b1[1:]}
    elif kind in ('Quadrotor', 'SimpleQuadrotor3D'):
        w = {'spl0': b0, 'dspl0': b1, 'ddspl0': b2}
    elif kind == 'Quadrotor3D':
        w = {'pos0': pub[:3], 'dpos0': pub[3:6], 'f_til0': b0[:1], 'q_phi0': b0[1:2], 'q_theta0': b0[2:],
             'dq_phi0': b1[1:2], 'dq_theta0': b1[2:]}
    elif kind == 'Trailer':
        w = {'tg_ha_tr0': b0[:1], 'v_til0': b0[1:2], 'tg_ha0': b0[2:], 'dtg_ha0': b1[2:], 'pos0': pub[3:5]}
        d = pub[5] - pub[2]
        V = b0[1]*(1 + b0[2]**2)
        w['dtg_ha_tr0'] = [0.5*V/v.l_hitch*math.sin(d)*(1+b0[0]**2)]
    for g, val in goal_params(v, kind).items():
        w[g] = val
    names = sorted(k for k in w if k in p)
    miss = sorted(k for k in w if k not in p)
    return {'type': 'seam', 'name': names + miss, 'want': [fixl(np.ravel(w[k]), S4) for k in names + miss],
            'got': [fixl(np.ravel(p[k]), S4) for k in names] + [[] for _ in miss], 'tol': 12, 'case': extra}


def goal_params(v, kind):
    if kind == 'Trailer':
        q = v.lead_veh.poseT
        return {'posT': q[:2], 'tg_haT': [math.tan(q[2]/2)]}
    if kind in ('Dubins', 'AGV', 'Bicycle', 'HolonomicOrient'):
        q = v.poseT
        return {'posT': q[:2], 'tg_haT': [math.tan(q[2]/2)]}
    if kind == 'Quadrotor3D':
        return {'posT': v.poseT[:3]}
    if kind == 'SimpleQuadrotor3D':
        return {'positionT': v.positionT}
    return {'poseT': v.poseT}


def job(args):
    seed, kind, form = args
    setup()
    rng = random.Random(seed)
    out = []
    with vlib.quiet():
        v, m, coefs, T, ang = make(kind, rng)
        h = 0.01
        if form:
            v.rel_pos_c = [round(rng.uniform(-.6, .6), 4) for _ in range(2)]
        c0 = coefs()
        v.options['ideal_prediction'] = rng.random() < .7
        v.options['ideal_update'] = rng.random() < .5
        simulate = rng.random() < .5
        # the state it starts in: on the plan
        if kind == 'Trailer':
            tt, tv = 2*math.atan(c0[0, 0]), 2*math.atan(c0[0, 2])
            px, py = rng.uniform(-2, 2), rng.uniform(-2, 2)
            st = [px, py, tt, px + v.l_hitch*math.cos(tt), py + v.l_hitch*math.sin(tt), tv]
        else:
            st = start_state(kind, rng, c0)
        set_start(v, kind, st, rng)
        n0 = INTEGRATING.get(kind, 0)
        t0 = 0.
        for rnd in range(3):
            c = c0 if rnd == 0 else coefs()
            if rnd and kind == 'Quadrotor3D':
                pass
            segs = [[BSpline(v.basis, c[:, k]) for k in range(c.shape[1])]]
            extra = {'key': '%s/%s' % (kind, 'center' if form else 'plan'), 'seed': seed, 'round': rnd, 'simulate': simulate,
                     'T': T, 'coef': c.tolist() if len(c) < 9 else 'random'}
            start = []
            if n0:
                ps = np.ravel(v.prediction['state'])
                if kind == 'Trailer':
                    start = []
                    want = ps[3:5]
                else:
                    start = ps[:n0] if kind == 'Quadrotor3D' else ps[:2]
            par = v.set_parameters(t0)
            v.store(t0, h, segs, T)
            rec = pubrec(v, m, kind, h, start, ang, T, extra)
            if kind == 'Trailer':
                rec['startlead'] = True
                rec['start'] = [rec['s'][0][0], rec['s'][0][1], rec['s'][0][2]] + fixl(want, S6)
            out.append(rec)
            # on to the next re-plan, n samples later
            n = rng.randint(3, max(4, min(40, int(T/h) - 5)))
            pub = np.asarray(v.trajectories['state'], float)[:, n]
            tau = n*h/T

            def vals(nu, c=c, tau=tau):
                return np.array([float(rh.bspl(v.knots, c[:, k], v.degree, np.array([tau]), nu)[0])/T**nu
                                 for k in range(c.shape[1])])
            b = [vals(0), vals(1), vals(2)]
            if simulate and kind != 'Trailer' or (kind == 'Trailer' and simulate and v.options['ideal_update']):
                v.simulate(n*h, h)
            st0 = np.asarray(v.trajectories['state'], float)[:, 0]
            v.predict(t0 + n*h, n*h, h, state0=st0)
            t0 += n*h
            if v.options['ideal_prediction']:
                par = v.set_parameters(t0)
                out.append(seamrec(v, kind, par, lambda nu: b[nu], pub, extra))
    return out


def odes(args):
    seed, kind = args
    setup()
    rng = random.Random(seed)
    with vlib.quiet():
        v, m, _, _, _ = make(kind, rng)
    s, u, f = [], [], []
    a = lambda: rng.uniform(-3, 3)
    for _ in range(40):
        if kind in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient'):
            n = {'Holonomic': 2, 'Holonomic1D': 1}.get(kind, 3)
            x, w = [a() for _ in range(n)], [a() for _ in range(n)]
        elif kind == 'Dubins':
            x, w = [a(), a(), a()], [a(), a()]
        elif kind in ('AGV', 'Bicycle'):
            x, w = [a(), a(), a(), rng.uniform(-1., 1.)], [a(), a()]
        elif kind == 'Quadrotor':
            x, w = [a() for _ in range(5)], [rng.uniform(2, 15), a()]
        elif kind == 'Trailer':
            x, w = [a() for _ in range(6)], [a(), a()]
        else:
            x, w = [a() for _ in range(6)] + [rng.uniform(-1, 1), rng.uniform(-1, 1)], [rng.uniform(2, 15), a(), a()]
        x, w = [round(q, 6) for q in x], [round(q, 4) for q in w]
        y = np.ravel(v.ode(np.array(x), np.array(w)))
        s.append(fixl(x, S6)); u.append(fixl(w, S4)); f.append(fixl(y, S4))
    return [{'type': 'ode', 'm': m, 's': s, 'u': u, 'f': f, 'tol': 40, 'case': {'key': 'ode/%s' % kind, 'seed': seed}}]


def term(args):
    """what the stop criterion says about states near the goal"""
    seed, kind = args
    setup()
    rng = random.Random(seed)
    with vlib.quiet():
        v, m, coefs, T, ang = make(kind, rng)
        v.options['stop_tol'] = tol = rng.choice([0.01, 0.05, 0.002])
        c = coefs()
        set_start(v, kind, [0.]*6 if kind == 'Trailer' else start_state(kind, rng, c), rng)
    dx, vv, says = [], [], []
    both = v
    if kind == 'Trailer':
        v.set_terminal_conditions(0.4)
        v.lead_veh.options['stop_tol'] = tol
    for _ in range(60):
        a = rng.choice([0., .3, .7, .9, 1.1, 1.5, 4.])*tol
        b = rng.choice([0., .3, .7, .9, 1.1, 1.5, 4.])*tol

        def vec(n, r):
            x = np.array([rng.gauss(0, 1) for _ in range(n)])
            if rng.random() < .4:
                x *= np.array([rng.random() < .5 for _ in range(n)])
            q = np.linalg.norm(x)
            return np.round(r*x/q, 6) if q else np.zeros(n)
        if kind in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient', 'Dubins', 'AGV', 'Bicycle'):
            goal = np.ravel(v.poseT)
            n = len(goal)
            d, w = vec(n, a), vec(2 if kind in ('Dubins', 'AGV', 'Bicycle') else n, b)
            st = np.r_[goal+d, rng.uniform(-.5, .5)] if kind in ('AGV', 'Bicycle') else goal + d
            v.signals = {'state': np.c_[goal*7, st] if len(st) == n else np.c_[st*7, st], 'input': np.c_[w*9+1, w], 'pose': np.zeros((3, 2))}
            rest = [fixl(w, S4)]
        elif kind == 'Trailer':
            goal = np.ravel(v.lead_veh.poseT)
            d, w = vec(3, a), vec(2, b)
            e = rng.choice([0., .5, .9, 1.2, 3.])*tol*rng.choice([-1, 1])
            st = np.r_[0., 0., 0.4 + e, goal + d]
            v.signals = {'state': np.c_[st*5, st], 'input': np.c_[w*9, w], 'pose': np.c_[st, st]}
            pass
            rest = [fixl(w, S4), fixl([e], S4)]
        elif kind in ('Quadrotor', 'SimpleQuadrotor3D'):
            goal = np.ravel(v.poseT if kind == 'Quadrotor' else v.positionT)
            n = len(goal)
            d, w = vec(n, a), vec(n, b)
            st = np.r_[goal+d, np.zeros(3)]
            v.signals = {'pose': np.c_[st*5, st], 'dspl': np.c_[w*9, w], 'state': np.c_[st, st], 'input': np.zeros((3, 2))}
            rest = [fixl(w, S4)]
        else:
            goal = np.ravel(v.poseT)[:3]
            d, w = vec(3, a), vec(3, b)
            f = rng.choice([0., .5, .9, 1.2, 3.])*tol*rng.choice([-1, 1])
            st = np.r_[goal + d, w, 0., 0.]
            u = np.r_[9.81 + f, 0., 0.]
            v.signals = {'pose': np.c_[np.r_[goal*4, 0, 0, 0], np.r_[goal+d, 0, 0, 0]], 'state': np.c_[st*3, st], 'input': np.c_[u*2, u]}
            rest = [fixl(w, S4), fixl([f], S4)]
        dx.append(fixl(d, S4)); vv.append(rest); says.append(bool(v.check_terminal_conditions()))
    return [{'type': 'term', 'dx': dx, 'v': vv, 'says': says, 'tol': fix(tol, S4), 'case': {'key': 'term/%s' % kind, 'seed': seed}}]


def run(ctx):
    setup()
    ctx.assumptions += ['Velocities and inputs on a 1e-4 grid, positions and angles on a 1e-6 grid',
                        'Steering vehicles are driven with positive speed']
    ctx.design('VehicleModel', 'SPECIFICATION Spec\nCONSTANTS\n STEPS = %d\nINVARIANTS Trig Hitched Straight Circle Mirror\nCHECK_DEADLOCK FALSE\n'
               % (40 if ctx.quick else 300), name='VehicleModel', workers=8)
    rng = ctx.rng
    reps = 8 if ctx.quick else 60
    jobs = [(rng.randrange(10**9), k, False) for k in KINDS for _ in range(reps)]
    jobs += [(rng.randrange(10**9), k, True) for k in ('Dubins', 'Holonomic') for _ in range(reps//2)]
    recs = []
    for st, r in vlib.parallel(job, jobs, 8, 120):
        if st != 'ok':
            ctx.violation('motion.raises', r[-1500:], {'key': 'worker'})
        else:
            recs += r
    for st, r in vlib.parallel(odes, [(rng.randrange(10**9), k) for k in KINDS for _ in range(2)], 8, 120):
        if st != 'ok':
            ctx.violation('model.raises', r[-1500:], {'key': 'worker'})
        else:
            recs += r
    for st, r in vlib.parallel(term, [(rng.randrange(10**9), k) for k in KINDS for _ in range(3 if ctx.quick else 30)], 8, 120):
        if st != 'ok':
            ctx.violation('stop.raises', r[-1500:], {'key': 'worker'})
        else:
            recs += r
    ctx.judge('VehicleTrace', recs, shards=8, timeout=1500)
    nt = sum(len(r['s']) for r in recs if r['type'] == 'traj')
    ctx.evals += nt + sum(len(r['want']) for r in recs if r['type'] == 'seam')
    ctx.cov = {'vehicle models': len(KINDS), 'published trajectories': sum(r['type'] == 'traj' for r in recs),
               'samples': nt, 'seams': sum(r['type'] == 'seam' for r in recs)}
    ctx.sample({'kind': recs[0]['m'], 'rows': recs[0]['s'][:3]})
    ctx.log(ctx.cov)


if __name__ == '__main__':
    vlib.main('C19', run)
