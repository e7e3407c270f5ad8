"""Fleets: neighbours, configurations, and the formation the optimization problems impose."""
import random
import numpy as np
import vlib
from vlib import fix, fixl

og = None
S4, S6 = 10**4, 10**6
DESIGN = '''SPECIFICATION Spec
CONSTANTS NMAX=%d Drop=3
INVARIANTS NeverAlone Mutual Once Whole Lean
CHECK_DEADLOCK FALSE
'''


def setup():
    global og
    if og is None:
        vlib.import_repo()
        import omgtools
        og = omgtools


def rnd(rng, a, q=4):
    return round(rng.uniform(-a, a), q)


def vehicle(rng, kind, ki=4):
    v = {'Holonomic': lambda: og.Holonomic(), 'Holonomic3D': lambda: og.Holonomic3D(og.Sphere(.1)), 'Quadrotor': lambda: og.Quadrotor(.2),
         'Holonomic1D': lambda: og.Holonomic1D()}[kind]()
    v.define_knots(knot_intervals=ki)
    return v


def configuration(rng, N, dims):
    return [[rnd(rng, 1.5) for _ in dims] for _ in range(N)]


def give(rng, fleet, conf, dims, allow_list, th=None):
    form = rng.choice(['dict', 'list'] if allow_list else ['dict'])
    arg = [list(c) for c in conf] if form == 'list' else [{d: x for d, x in rng.sample(list(zip(dims, c)), len(dims))} for c in conf]
    if th is None:
        fleet.set_configuration(arg)
    else:
        fleet.set_configuration(arg, orientation=th)
    return form


def job_fleet(rng, case):
    N = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    inter = rng.choice(['circular', 'full'])
    kind = rng.choice(['Holonomic', 'Holonomic', 'Quadrotor', 'Holonomic3D'])
    nd = 3 if kind == 'Holonomic3D' else 2
    vs = [vehicle(rng, kind) for _ in range(N)]
    fl = og.Fleet(vs, interconnection=inter)
    dims = list(range(nd)) if rng.random() < .6 else sorted(rng.sample(range(nd), rng.randint(1, nd)))
    conf = configuration(rng, N, dims)
    if rng.random() < .3:          # a second configuration replaces the first
        give(rng, fl, configuration(rng, N, dims), dims, dims == list(range(len(dims))))
    th = rng.choice([0., 0., rnd(rng, 3.)]) if len(dims) == 2 else 0.
    form = give(rng, fl, conf, dims, dims == list(range(len(dims))), th)
    if form == 'dict':
        th = 0.
    ix = {id(v): k for k, v in enumerate(vs)}
    nb = [[ix[id(n)] for n in fl.get_neighbors(v)] for v in vs]
    rel = [[fixl(fl.get_rel_config(v)[n], S4) for n in fl.get_neighbors(v)] for v in vs]
    toc = [fixl(v.rel_pos_c, S4) for v in vs]
    what, meant, got = [], [], []
    st = [[rnd(rng, 2) for _ in range(nd)] for _ in vs]
    fl.set_initial_conditions(st)
    for v, s in zip(vs, st):
        what.append('start'); meant.append(fixl(s, S4)); got.append(fixl(np.ravel(v.prediction['state'])[:nd], S4))
    fl.set_terminal_conditions(st[::-1])
    for v, s in zip(vs, st[::-1]):
        what.append('goal'); meant.append(fixl(s, S4)); got.append(fixl(np.ravel(v.poseT if hasattr(v, 'poseT') else v.positionT)[:nd], S4))
    return [{'type': 'fleet', 'N': N, 'inter': inter, 'th': fix(th, S6), 'conf': [fixl(c, S4) for c in conf], 'nb': nb, 'rel': rel, 'toc': toc,
             'what': what, 'meant': meant, 'got': got, 'case': dict(case, key='fleet/%d/%s/%s' % (N, inter, form), dims=dims)}]


class Grab(object):
    """stands in for the solver: keeps what it was asked"""

    def __init__(self, real):
        self.real = real

    def __call__(self, **kw):
        self.kw = kw
        return {'x': kw['x0'], 'lam_g': np.zeros(np.array(kw['lbg']).size), 'f': 0.}

    def stats(self):
        return {'return_status': 'Solve_Succeeded', 'iter_count': 1, 'success': True}

    def violation(self):
        f = self.real.oracle()
        k = self.kw
        x = k['x0'].cat if hasattr(k['x0'], 'cat') else k['x0']
        p = k['p'].cat if hasattr(k['p'], 'cat') else k['p']
        g = np.array(f(x, p)[1]).ravel()
        lo, hi = np.array(k['lbg'].cat if hasattr(k['lbg'], 'cat') else k['lbg']).ravel(), np.array(k['ubg'].cat if hasattr(k['ubg'], 'cat') else k['ubg']).ravel()
        return max(np.max(lo-g), np.max(g-hi))


def central(rng, N, inter, kind, dims, opts, conf, H=10., ki=4):
    from omgtools.problems.formation_central import FormationPoint2pointCentral
    nd = 3 if kind == 'Holonomic3D' else 2
    vs = [vehicle(rng, kind, ki) for _ in range(N)]
    fl = og.Fleet(vs, interconnection=inter)
    give(rng, fl, conf, dims, dims == list(range(len(dims))))
    for v in vs:
        v.set_options({'room_constraints': False})
    env = og.Environment(room={'shape': og.Cube(40.) if nd == 3 else og.Square(40.)})
    o = {'verbose': 0, 'horizon_time': H, 'inter_vehicle_avoidance': False}
    o.update(opts)
    with vlib.quiet():
        P = FormationPoint2pointCentral(fl, env, options=o)
    return P, vs, fl, nd


def job_central(rng, case):
    N = rng.choice([2, 2, 3, 3, 4, 5])
    inter = rng.choice(['circular', 'full'])
    kind = rng.choice(['Holonomic', 'Holonomic', 'Holonomic3D'])
    nd = 3 if kind == 'Holonomic3D' else 2
    dims = list(range(nd)) if rng.random() < .6 else sorted(rng.sample(range(nd), rng.randint(1, nd)))
    conf = configuration(rng, N, dims)
    soft = rng.random() < .3
    M = round(rng.uniform(.05, .3), 3) if soft else 0.
    opts = {'soft_formation': True, 'max_formation_deviation': M} if soft else {}
    P, vs, fl, nd = central(rng, N, inter, kind, dims, opts, conf, ki=7)
    fl.set_initial_conditions([[0.]*nd for _ in vs])
    fl.set_terminal_conditions([[0.]*nd for _ in vs])
    with vlib.quiet():
        P.init()
    grab = Grab(P.problem)
    P.problem = grab
    n, dg = len(vs[0].basis), vs[0].degree
    out = []
    for rep in range(8):
        # a slow common motion that starts and ends at rest
        base = np.array([[.02*rng.uniform(-1, 1) for _ in range(nd)] for _ in range(n)])
        base[:2] = base[0]
        base[-dg-1:] = base[-1]
        C = []
        for l in range(N):
            c = base.copy()
            for d in range(nd):
                if d in dims:
                    c[:, d] += conf[l][dims.index(d)]
                else:
                    c[:, d] = rnd(rng, 1.)           # free to be anywhere
            C.append(c)
        r = rng.random()
        if r < .75:
            # somebody is elsewhere, all the time or for a while
            l, d = rng.randrange(N), rng.choice(dims)
            e = rng.choice([1, -1])*rng.uniform(.03, .12)*(1 if not soft else rng.choice([.5, 1., 5.]))
            if rng.random() < .4:
                C[l][:, d] += e
            elif rng.random() < .5:
                C[l][2:-dg-1, d] += e*.3
            else:
                C[l][rng.randrange(2, n-dg-1), d] += e*.3
        fl.set_initial_conditions([c[0].tolist() for c in C])
        fl.set_terminal_conditions([c[-1].tolist() for c in C])
        with vlib.quiet():
            P.reinitialize()
            for v, c in zip(vs, C):
                P.father.set_variables(c, v, 'splines_seg0')
            for nm in [q for q in P._variables if q.startswith('g')]:
                x = np.array(P.father.get_variables(P, nm, spline=False))
                P.father.set_variables(np.full(x.shape, 50.), P, nm)
            if soft:
                for nm in [q for q in P._variables if q.startswith('eps_form')]:
                    x = np.array(P.father.get_variables(P, nm, spline=False))
                    P.father.set_variables(np.full(x.shape, M), P, nm)
            P.solve(0., .1)
        v = grab.violation()
        ok = bool(v < 1e-5)
        out.append({'type': 'plan', 'N': N, 'inter': inter, 'c': [[[fix(C[l][k, d], S4) for d in dims] for l in range(N)] for k in range(n)],
                    'conf': [fixl(c, S4) for c in conf], 'max': fix(M, S4) - 3 if soft else 3, 'ok': ok,
                    'case': dict(case, key='central/%d/%s%s' % (N, inter, '/soft' if soft else ''), dims=dims, viol=int(v*1e6))})
    return out


def job_ride(rng, case):
    """the real optimizer leads a fleet along; what it does is in formation"""
    N = rng.choice([2, 3, 4])
    inter = rng.choice(['circular', 'full'])
    kind = 'Holonomic'
    dims = [0, 1] if rng.random() < .7 else [rng.randrange(2)]
    conf = configuration(rng, N, dims)
    P, vs, fl, nd = central(rng, N, inter, kind, dims, {'inter_vehicle_avoidance': False}, conf)
    other = [[rnd(rng, 1.) for _ in range(2)] for _ in range(N)]

    def place(x):
        return [[x[d] + conf[l][dims.index(d)] if d in dims else other[l][d] for d in range(2)] for l in range(N)]
    a, b = [rnd(rng, 2.) for _ in range(2)], [rnd(rng, 2.) for _ in range(2)]
    fl.set_initial_conditions(place(a))
    goals = place(b)
    if rng.random() < .6:
        # goals that do not fit the formation
        goals = [[x + rnd(rng, .5) for x in g] for g in goals]
    fl.set_terminal_conditions(goals)
    with vlib.quiet():
        P.init()
        sim = og.Simulator(P, sample_time=.05, update_time=.5)
        P.initialize(0.)
        sim.deployer.reset() if hasattr(sim.deployer, 'reset') else None
        good = True
        for _ in range(5):
            sim.step(.5)
            good = good and P.problem.stats()['return_status'] == 'Solve_Succeeded'
    if not good:
        return []
    K = vs[0].signals['state'].shape[1]
    idx = list(range(0, K, 5))
    return [{'type': 'ride', 'N': N, 'inter': inter, 'conf': [fixl(c, S4) for c in conf], 'tol': 40,
             'p': [[[fix(v.signals['state'][d, k], S4) for d in dims] for v in vs] for k in idx],
             'case': dict(case, key='ride/%d/%s' % (N, inter), dims=dims)}]


def job_stop(rng, case):
    N = rng.choice([2, 3, 3, 4])
    inter = rng.choice(['circular', 'full'])
    vs = [vehicle(rng, 'Holonomic') for _ in range(N)]
    fl = og.Fleet(vs, interconnection=inter)
    dims = rng.choice([[0, 1], [0, 1], [0], [1]])
    conf = configuration(rng, N, dims)
    give(rng, fl, conf, dims, dims == list(range(len(dims))))
    fl.set_initial_conditions([[0., 0.]]*N)
    fl.set_terminal_conditions([[0., 0.]]*N)
    env = og.Environment(room={'shape': og.Square(40.)})
    with vlib.quiet():
        P = og.RendezVous(fl, env, options={'verbose': 0, 'horizon_time': 10.})
    out = []
    for _ in range(12):
        s = rng.choice([0., .01, .02, .05, .3])
        x = [rnd(rng, 2.) for _ in dims]
        pos = [[x[k] + conf[l][k] + s*rng.uniform(-1, 1) for k in range(len(dims))] for l in range(N)]
        for v, q in zip(vs, pos):
            full = np.array([[rnd(rng, 3.)]*3 for _ in range(2)])
            for k, d in enumerate(dims):
                full[d, 0] = q[k]
            v.trajectories = {'splines': full}
        with vlib.quiet():
            stop = bool(P.stop_criterium(1., .1))
        out.append({'type': 'stop', 'N': N, 'inter': inter, 'p': [fixl(q, S4) for q in pos], 'conf': [fixl(c, S4) for c in conf], 'stop': stop,
                    'case': dict(case, key='stop/%d/%s' % (N, inter), dims=dims)})
    return out


def job_admm(rng, case):
    """what the planners that negotiate have to agree on"""
    from casadi import symvar, substitute, Function, DM, MX
    N = rng.choice([2, 2, 3, 3, 4, 5])
    inter = rng.choice(['circular', 'full'])
    which = rng.choice(['rendezvous', 'formation', 'dualdec'])
    nd = rng.choice([2, 2, 3])
    vs = [vehicle(rng, 'Holonomic3D' if nd == 3 else 'Holonomic') for _ in range(N)]
    fl = og.Fleet(vs, interconnection=inter)
    dims = list(range(nd)) if rng.random() < .5 else sorted(rng.sample(range(nd), rng.randint(1, nd)))
    conf = configuration(rng, N, dims)
    give(rng, fl, conf, dims, dims == list(range(len(dims))))
    fl.set_initial_conditions([[0.]*nd]*N)
    fl.set_terminal_conditions([[0.]*nd]*N)
    env = og.Environment(room={'shape': og.Cube(40.) if nd == 3 else og.Square(40.)})
    if which == 'dualdec':
        from omgtools.problems.formation_dualdec import FormationPoint2pointDualDecomposition as K
    else:
        K = {'rendezvous': og.RendezVous, 'formation': og.FormationPoint2point}[which]
    with vlib.quiet():
        P = K(fl, env, options={'verbose': 0, 'horizon_time': 10.})
        for q in P.problems:
            q.father.reset()
        P.construct()
    n, dg = len(vs[0].basis), vs[0].degree
    cons = [c for c in P._constraints.values()]
    ex = [MX(c[0]) for c in cons]
    for v in vs + P.problems + [P]:
        for sub in v._substitutes.values():
            ex = [substitute(e, MX(sub[1]), MX(sub[0])) for e in ex]
    names = {x.name(): x for e in ex for x in symvar(e)}
    order = sorted(names)
    f = Function('f', [names[k] for k in order], ex)
    lo = [np.zeros(e.shape[0]) + np.array(DM(c[1])).ravel() for e, c in zip(ex, cons)]
    hi = [np.zeros(e.shape[0]) + np.array(DM(c[2])).ravel() for e, c in zip(ex, cons)]
    par = P.set_parameters(0.)
    out = []
    for _ in range(8):
        base = np.array([[rng.uniform(-1, 1) for _ in dims] for _ in range(1 if which == 'rendezvous' else n)])
        base[-dg-1:] = base[-1]
        c = [base + np.array(conf[l]) for l in range(N)]
        if rng.random() < .6:
            l, k = rng.randrange(N), rng.randrange(len(dims))
            e = rng.choice([1, -1])*rng.uniform(.03, .3)
            if rng.random() < .5 or which == 'rendezvous':
                c[l][:, k] += e
            else:
                c[l][rng.randrange(1, n-dg-1), k] += e
        val = {}
        for l, v in enumerate(vs):
            val['rel_pos_c_' + v.label] = np.array(par[v]['rel_pos_c']).ravel()
            full = np.array([[rng.uniform(-1, 1)]*nd for _ in range(len(c[l]))])
            full[:, dims] = c[l]
            val['splines_seg0_' + v.label] = full
            val['conT0_' + P.problems[l].label] = c[l][0]
        if set(order) - set(val):
            # what it is named after does not matter; but by position is the best guess then
            raise Exception('unknown symbols %s' % order)
        g = f(*[val[k] for k in order])
        g = [np.array(x).ravel() for x in (g if isinstance(g, (list, tuple)) else [g])]
        w = max([float(np.max(np.maximum(a-x, x-b))) for a, x, b in zip(lo, g, hi)] or [0.])
        out.append({'type': 'plan', 'N': N, 'inter': inter, 'c': [[fixl(c[l][k], S4) for l in range(N)] for k in range(len(base))],
                    'conf': [fixl(q, S4) for q in conf], 'max': 3, 'ok': bool(w < 1e-3), 'case': dict(case, key='admm/%s/%d/%s' % (which, N, inter), dims=dims)})
    return out


def job_free(rng, case):
    """a vehicle of which some coordinates of the goal are to be negotiated"""
    from omgtools.problems.point2point import FreeEndPoint2point
    kind, nd = rng.choice([('Holonomic', 2), ('Holonomic3D', 3)])
    v = vehicle(rng, kind, 7)
    v.set_options({'room_constraints': False})
    dims = sorted(rng.sample(range(nd), rng.randint(1, nd)))
    env = og.Environment(room={'shape': og.Cube(40.) if nd == 3 else og.Square(40.)})
    given = rng.sample(dims, len(dims))
    v.set_initial_conditions([0.]*nd)
    v.set_terminal_conditions([0.]*nd)
    n, dg = len(v.basis), v.degree
    with vlib.quiet():
        P = FreeEndPoint2point(v, env, {'verbose': 0, 'horizon_time': 10.}, {v: given})
        P.init()
    P.problem = grab = Grab(P.problem)
    out = []
    for _ in range(6):
        goal = [rnd(rng, 1.) for _ in range(nd)]
        meet = [rnd(rng, 1.) for _ in dims]
        c = np.array([[.02*rng.uniform(-1, 1)]*nd for _ in range(n)]) + np.array(goal)
        for k, d in enumerate(dims):
            c[:, d] += meet[k] - goal[d]
        if rng.random() < .3:
            c[:] = c[-1]
        c[:2] = c[0]
        c[-dg-1:] = c[-1]
        r = rng.random()
        if r < .3:
            c[-1-rng.randint(1, dg-1), rng.randrange(nd)] += rng.choice([1, -1])*.03     # still moving in the end
        elif r < .5:
            c[:, rng.randrange(nd)] += .3                  # elsewhere
        room = rng.choice([0., .05, .05])                  # how far off it admits to be
        v.set_initial_conditions(c[0].tolist())
        v.set_terminal_conditions(goal)
        with vlib.quiet():
            P.reinitialize()
            P.father.set_variables(c, v, 'splines_seg0')
            P.father.set_variables(np.array(meet), P, 'conT0')
            for nm in [q for q in P._variables if q.startswith('g')]:
                x = np.array(P.father.get_variables(P, nm, spline=False))
                P.father.set_variables(np.full(x.shape, room), P, nm)
            P.solve(0., .1)
        w = grab.violation()
        to = list(goal)
        for k, d in enumerate(dims):
            to[d] = meet[k]
        out.append({'type': 'free', 'N': 1, 'inter': 'full', 'c': [fixl(q, S4) for q in c], 'to': fixl(to, S4), 'room': fix(room, S4), 'deg': dg, 'ok': bool(w < 1e-4),
                    'case': dict(case, key='free/%s' % kind, dims=dims)})
    return out


def job_turned(rng, case):
    """vehicles that turn take their place in the formation along: what they tell their neighbours about the centre"""
    N = rng.choice([2, 3, 4])
    vs = []
    deg, ki = rng.choice([2, 3]), rng.choice([4, 6])
    for _ in range(N):
        v = og.Dubins(options={'degree': deg}, bounds={'vmax': 1., 'wmax': 1., 'wmin': -1.})
        v.define_knots(knot_intervals=ki)
        vs.append(v)
    fl = og.Fleet(vs, interconnection=rng.choice(['circular', 'full']))
    conf = configuration(rng, N, [0, 1])
    o = rng.choice([0., 0., rnd(rng, 2.)])
    if o:
        fl.set_configuration([list(c) for c in conf], orientation=o)
    else:
        give(rng, fl, conf, [0, 1], True)
    fl.set_initial_conditions([[0., 0., 0.]]*N)
    fl.set_terminal_conditions([[0., 0., 0.]]*N)
    env = og.Environment(room={'shape': og.Square(40.)})
    with vlib.quiet():
        P = og.FormationPoint2point(fl, env, options={'verbose': 0, 'horizon_time': 5., 'hard_term_con': rng.random() < .3})
        P.init()
    out = []
    for _ in range(6):
        l = rng.randrange(N)
        v, u = vs[l], P.updaters[l]
        th = rnd(rng, 1.8)
        p = [rnd(rng, 3.), rnd(rng, 3.)]
        c, si = np.cos(th-o), np.sin(th-o)
        at = np.array([p[0] - c*conf[l][0] + si*conf[l][1], p[1] - si*conf[l][0] - c*conf[l][1]])
        told = np.tile(at, (len(v.basis), 1))
        how = rng.choice(['so', 'so', 'off', 'off', 'unturned', 'waving'])
        if how == 'off':
            told[:, rng.randrange(2)] += rng.choice([1, -1])*rng.uniform(.03, .5)
        elif how == 'unturned':
            told[:] = np.array(p) - np.array(conf[l])
        elif how == 'waving':
            told[rng.randrange(1, len(v.basis)-v.degree-1), rng.randrange(2)] += rng.choice([1, -1])*rng.uniform(.2, .5)
        v.set_initial_conditions(p + [th])
        v.set_terminal_conditions(p + [th])
        real = u.problem_upd_x
        u.problem_upd_x = grab = Grab(real)
        spl = np.zeros((len(v.basis), 2))
        spl[:, 1] = np.tan(th/2.)
        f = u.father_updx
        with vlib.quiet():
            f.set_variables(spl, v, 'splines_seg0')
            f.set_variables(told, v, 'formation_center')
            u.update_x(0.)
        u.problem_upd_x = real
        w = grab.violation()
        out.append({'type': 'turned', 'p': fixl(p, S4), 'conf': fixl(conf[l], S4), 'turn': [fix(c, S4), fix(si, S4)], 'told': [fixl(q, S4) for q in told], 'ok': bool(w < 1e-4),
                    'w': fix(w, S4), 'case': dict(case, key='turned/%s' % how)})
    return out


def job(a):
    setup()
    rng = random.Random(a[1])
    case = {'key': a[0], 'seed': a[1]}
    return {'fleet': job_fleet, 'central': job_central, 'ride': job_ride, 'stop': job_stop, 'admm': job_admm, 'free': job_free, 'turned': job_turned}[a[0]](rng, case)


def run(ctx):
    setup()
    ctx.design('FleetModel', DESIGN % (6 if ctx.quick else 8), workers=8)
    f = 1 if ctx.quick else 10
    jobs = []
    for fam, n in (('ride', 16), ('central', 40), ('fleet', 120), ('stop', 24), ('admm', 40), ('free', 24), ('turned', 24)):
        jobs += [(fam, ctx.rng.randrange(10**9)) for _ in range(n*f)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 200)):
        if st != 'ok':
            ctx.violation('raises.' + j[0], str(r)[-900:], {'key': j[0], 'job': list(j)})
        else:
            recs += r
    rides = sum(r['type'] == 'ride' for r in recs)
    if not rides:
        raise vlib.MachineryError('the optimizer never succeeded')
    ctx.judge('FleetTrace', recs, shards=8)
    ctx.evals = len(recs)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('type', 'N', 'inter', 'case')})


if __name__ == '__main__':
    vlib.main('C18', run)
