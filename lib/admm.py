"""Drives the distributed problems (ADMM, dual decomposition) iteration by iteration and records the
coordination variables of every agent.  The agents' own optimizations are answered by the harness, so
that coordination is exercised far from convergence.  Splines are re-expressed on the part of the
horizon that still lies ahead with scipy, independently of the tool's own transformations."""
import itertools
import random
import warnings
import numpy as np
import vlib
from vlib import fix

SC = 10000
og = None


def setup():
    global og
    if og is None:
        og = vlib.import_repo()
        warnings.simplefilter('ignore')
    return og


def greville(knots, deg):
    return np.array([np.mean(knots[j+1:j+1+deg]) if deg else .5*(knots[j]+knots[j+1])
                     for j in range(len(knots)-deg-1)])


def ahead(knots, deg, tau):
    """the knots once the first deg+1 of them have moved to tau"""
    k = np.array(knots, float)
    k[:deg+1] = tau
    return k


def reexpress(c, k1, k2, deg):
    """coefficients on k2 of the spline (k1, c), whose end pieces are continued where needed"""
    from scipy.interpolate import BSpline as SB
    g = greville(k2, deg)
    s = SB(k1, np.asarray(c, float), deg, extrapolate=True)
    n = len(k2)-deg-1
    A = np.array([SB(k2, np.eye(n)[i], deg, extrapolate=True)(g) for i in range(n)]).T
    return np.linalg.solve(A, s(g))


def over_knot(c, knots, deg, times):
    """the same motion seen from `times` knots later, last piece continued"""
    for _ in range(times):
        d = knots[deg+1]-knots[0]
        c = reexpress(c, np.asarray(knots)-d, np.asarray(knots, float), deg)
    return c


def I(v, sc=SC):
    return [fix(x, sc) for x in np.ravel(v)]


class Fleet(object):
    def __init__(self, cfg, rng):
        setup()
        self.cfg, self.rng = cfg, rng
        c = cfg
        self.its = []
        vehicles = []
        nd = 3 if c['vehicle'] == 'Holonomic3D' else 2
        for n in range(c['N']):
            if nd == 3:
                v = og.Holonomic3D(og.Sphere(.1))
            else:
                T = getattr(og, c['vehicle'])
                if c.get('mixed') and n == c['N']-1:
                    T = type('Crawler', (T,), {})
                v = T()
            v.define_knots(knot_intervals=c['ki'])
            vehicles.append(v)
        self.vehicles = vehicles
        self.fleet = og.Fleet(vehicles, interconnection=c['inter'])
        dims = c.get('dims') or list(range(nd))
        self.dims = dims
        self.conf = [{d: rng.uniform(-1, 1) for d in dims} for _ in vehicles]
        if dims == list(range(nd)) and rng.random() < .5:
            self.fleet.set_configuration([[k[d] for d in dims] for k in self.conf])
        else:
            self.fleet.set_configuration([dict(k) for k in self.conf])
        self.fleet.set_initial_conditions([[rng.uniform(-2, 2) for _ in range(v.n_spl)] for v in vehicles])
        self.fleet.set_terminal_conditions([[rng.uniform(-2, 2) for _ in range(v.n_spl)] for v in vehicles])
        env = og.Environment(room={'shape': og.Cube(20.) if nd == 3 else og.Square(20.)})
        if c.get('obst'):
            env.add_obstacle(og.Obstacle({'position': [6.]*nd}, shape=og.Sphere(.2) if nd == 3 else og.Circle(.2),
                                         options={'avoid': False}))
        self.rho = c['rho'][0]/float(c['rho'][1])
        opts = {'verbose': 0, 'rho': self.rho, 'horizon_time': c['H'], 'init_iter': c['init_iter'],
                'max_iter_per_update': c['max_iter'], 'separate_build': c.get('separate', False)}
        opts.update(c.get('opts', {}))
        cls = {'admm': 'FormationPoint2point', 'dd': 'FormationPoint2pointDualDecomposition',
               'rdv': 'RendezVous'}[c['kind']]
        if cls == 'FormationPoint2pointDualDecomposition':
            from omgtools.problems.formation_dualdec import FormationPoint2pointDualDecomposition as P
        else:
            P = getattr(og, cls)
        with vlib.quiet():
            self.p = P(self.fleet, env, options=opts)
            self.p.init()
        self.ups = self.p.updaters
        self.dd = c['kind'] == 'dd'
        self.solvers = []
        for k, u in enumerate(self.ups):
            nm = 'problem_upd_xz' if self.dd else 'problem_upd_x'
            s = Stub(self, k, getattr(u, nm))
            setattr(u, nm, s)
            self.solvers.append(s)
        self.inner = self.p.dual_update
        self.p.dual_update = self.dual_update
        self.prev = None
        self.basis = vehicles[0].basis
        self.knots = np.array(self.basis.knots, float)
        self.deg = self.basis.degree
        self.alpha_cp = None

    # -- the agents' variables as motions ahead -----------------------------
    def name(self, u):
        """the coordinated quantity: child and name"""
        (child, names), = list(u.q_i.items())
        return child.label, sorted(names), sum(len(i) for i in names.values())

    def get(self, V, pre, u):
        lab, names, _ = self.name(u)
        return np.concatenate([np.ravel(np.array(V[tuple(pre) + (lab, nm)], float)) for nm in names])

    def put(self, V, pre, u, vec):
        lab, names, L = self.name(u)
        n = L//len(names)
        for m, nm in enumerate(names):
            V[tuple(pre) + (lab, nm)] = np.array(vec[m*n:(m+1)*n])

    def fwd(self, vec, tau, passed=0):
        v = np.ravel(np.array(vec, float))
        if self.cfg['kind'] == 'rdv':
            return v
        n = len(self.basis)
        out = []
        for d in range(len(v)//n):
            c = over_knot(v[d*n:(d+1)*n], self.knots, self.deg, passed)
            out += list(reexpress(c, self.knots, ahead(self.knots, self.deg, tau), self.deg))
        return np.array(out)

    def bwd(self, vec, tau):
        v = np.ravel(np.array(vec, float))
        if self.cfg['kind'] == 'rdv':
            return v
        n = len(self.basis)
        out = []
        for d in range(len(v)//n):
            out += list(reexpress(v[d*n:(d+1)*n], ahead(self.knots, self.deg, tau), self.knots, self.deg))
        return np.array(out)

    def state(self, tau, passed=0):
        """per agent: own variables, and per neighbour those it keeps of it / gets from it"""
        out = []
        for u in self.ups:
            V = u.var_dd if self.dd else u.var_admm
            d = {}
            own = [k for k in ('x_i', 'z_i', 'l_i') if k in V]
            for k in own:
                d[k] = self.fwd(self.get(V[k], (), u), tau, passed)
            for k in ('z_ij', 'l_ij', 'x_j'):
                d[k] = {}
                for w in u.q_ij:
                    d[k][w._index] = self.fwd(self.get(V[k], (w.label,), w), tau, passed)
            for k in ('z_ji', 'l_ji'):
                if k in V:
                    d[k] = {}
                    for w in u.q_ji:
                        d[k][w._index] = self.fwd(self.get(V[k], (w.label,), u), tau, passed)
            out.append(d)
        return out

    def pack(self, d, nb):
        r = {}
        for k, v in d.items():
            r[k] = [I(v[j]) for j in nb] if isinstance(v, dict) else I(v)
        return r

    def nbs(self):
        return [sorted(w._index for w in u.q_ij) for u in self.ups]

    # -- one iteration --------------------------------------------------------
    def dual_update(self, current_time, update_time):
        c = self.cfg
        K = c['H']/c['ki']
        ticks = int(round(current_time/(c['Ts_ms']/1000.)))
        kms = fix(K, 1e6)
        us = ticks*c['Ts_ms']*1000
        last = self.prev if self.prev is not None else 0
        # knots passed, on the integer clock
        passed = (us*c['ki'])//fix(c['H'], 1e6) - (last*c['ki'])//fix(c['H'], 1e6)
        if us < last:
            passed = 0
        self.prev = us
        t = us/1e6 - (us*c['ki']//fix(c['H'], 1e6))*K
        tau = t/c['H']
        it = {'t': fix(t, 1e6), 'us': us, 'passed': passed, 'rho': fix(self.rho, SC)}
        before = self.state(tau, passed)
        for s in self.solvers:
            s.calls = []
        nres = len(self.p.residuals['primal'])
        self.inner(current_time, update_time)
        after = self.state(tau)
        nb = self.nbs()
        it['before'] = [self.pack(d, n) for d, n in zip(before, nb)]
        it['after'] = [self.pack(d, n) for d, n in zip(after, nb)]
        it['seen'] = []
        for k, (s, u) in enumerate(zip(self.solvers, self.ups)):
            call = s.calls[-1]
            d = self.unpar(u, call['p'], tau)
            d['calls'] = len(s.calls)
            d['x'] = I(self.fwd(call['x'], tau))
            if self.dd:
                d['z'] = [I(self.fwd(call['z'][j], tau)) for j in nb[k]]
            it['seen'].append(d)
        r = self.p.residuals
        it['nres'] = len(r['primal']) - nres
        it['res'] = [fix(r[k][-1], 1000) for k in ('primal', 'dual', 'combined') if k in r]
        it['reset'] = 0
        if not self.dd:
            o = self.p.options
            if o['nesterov_acceleration'] and o['nesterov_reset']:
                cr = r['combined'][-1]
                first = self.alpha_cp is None
                if first:
                    ok = True
                else:
                    ok = cr <= o['eta']*self.alpha_cp
                    if abs(cr/(o['eta']*self.alpha_cp)-1) < 1e-6:
                        it['reset'] = 2       # too close to call
                self.alpha_cp = cr if ok else self.alpha_cp/o['eta']
                if it['reset'] != 2:
                    it['reset'] = 0 if ok else 1
        self.its.append(it)

    def unpar(self, u, p, tau):
        """the coordination parameters an agent's optimization is given"""
        f = u.father_updx
        P = f._par_struct(p)
        g = lambda nm: np.ravel(np.array(P[u.label, nm], float))
        d = {'t': fix(np.ravel(np.array(P[u.problem.label, 't']))[0], 1e6),
             'T': fix(np.ravel(np.array(P[u.problem.label, 'T']))[0], 1e6)}
        nb = sorted(w._index for w in u.q_ij)
        by = dict((w._index, w) for w in u.q_ji)
        if self.dd:
            ji = u.q_ji_struct(g('l_ji'))
            ij = u.q_ij_struct(g('l_ij'))
            d['l_ji'] = [I(self.fwd(self.get(ji, (by[j].label,), u), tau)) for j in nb]
            d['l_ij'] = [I(self.fwd(self.get(ij, (by[j].label,), by[j]), tau)) for j in nb]
        else:
            d['rho'] = fix(g('rho')[0], SC)
            for k in ('z_i', 'l_i'):
                d[k] = I(self.fwd(self.get(u.q_i_struct(g(k)), (), u), tau))
            for k in ('z_ji', 'l_ji'):
                s = u.q_ji_struct(g(k))
                d[k] = [I(self.fwd(self.get(s, (by[j].label,), u), tau)) for j in nb]
        return d

    # -- the agents' objective -------------------------------------------------
    def objective(self):
        """the coordination part of the agents' objectives at random points, in hundredths"""
        rng = self.rng
        out = []
        c = self.cfg
        for k, u in enumerate(self.ups):
            f = u.father_updx
            fun = self.solvers[k].real.get_function('nlp_f')
            L = self.name(u)[2]
            nb = sorted(w._index for w in u.q_ij)
            by = dict((w._index, w) for w in u.q_ji)
            K = c['H']/c['ki']
            t = rng.choice([0., 0., rng.uniform(0., .9)*K])
            tau = t/c['H']
            rnd = lambda: [rng.randint(-200, 200) for _ in range(L)]
            x, own, rem = rnd(), {}, {}
            var, par = f._var_struct(0.), f._par_struct(0.)
            v = self.vehicles[k]
            xt = self.bwd(np.array(x)/100., tau)
            if c['kind'] == 'rdv':
                var[u.problem.label, 'conT0'] = xt - np.array(v.rel_pos_c)
            else:
                n = len(self.basis)
                spl = np.zeros((n, v.n_spl))
                for m, d in enumerate(sorted(self.conf[k])):
                    spl[:, d] = xt[m*n:(m+1)*n] - v.rel_pos_c[m]
                var[v.label, 'splines_seg0'] = spl
            par[v.label, 'rel_pos_c'] = np.array(v.rel_pos_c)
            par[u.problem.label, 't'] = t
            par[u.problem.label, 'T'] = c['H']
            rec = {'x': x, 'rho': fix(self.rho, 100), 'ama': bool(self.p.options.get('AMA', False)), 'L': L}
            if self.dd:
                lji, lij, z = [rnd() for _ in nb], [rnd() for _ in nb], [rnd() for _ in nb]
                sj, si, sz = u.q_ji_struct(0), u.q_ij_struct(0), u.q_ij_struct(0)
                for m, j in enumerate(nb):
                    self.put(sj, (by[j].label,), u, self.bwd(np.array(lji[m])/100., tau))
                    self.put(si, (by[j].label,), by[j], self.bwd(np.array(lij[m])/100., tau))
                    self.put(sz, (by[j].label,), by[j], self.bwd(np.array(z[m])/100., tau))
                par[u.label, 'l_ji'], par[u.label, 'l_ij'] = sj.cat, si.cat
                var[u.label, 'z_ij'] = sz.cat
                rec.update({'lji': lji, 'lij': lij, 'z': z})
            else:
                zi, li = rnd(), rnd()
                zji, lji = [rnd() for _ in nb], [rnd() for _ in nb]
                s1, s2, s3, s4 = u.q_i_struct(0), u.q_i_struct(0), u.q_ji_struct(0), u.q_ji_struct(0)
                self.put(s1, (), u, self.bwd(np.array(zi)/100., tau))
                self.put(s2, (), u, self.bwd(np.array(li)/100., tau))
                for m, j in enumerate(nb):
                    self.put(s3, (by[j].label,), u, self.bwd(np.array(zji[m])/100., tau))
                    self.put(s4, (by[j].label,), u, self.bwd(np.array(lji[m])/100., tau))
                par[u.label, 'z_i'], par[u.label, 'l_i'] = s1.cat, s2.cat
                par[u.label, 'z_ji'], par[u.label, 'l_ji'] = s3.cat, s4.cat
                par[u.label, 'rho'] = self.rho
                rec.update({'zi': zi, 'li': li, 'zji': zji, 'lji': lji})
            # the rest of the objective: its slack variables are zero here
            rec['f'] = fix(float(fun(var.cat, par.cat)), 10000)
            out.append(rec)
        return out


class Stub(object):
    def __init__(self, run, k, real):
        self.run, self.k, self.real, self.calls = run, k, real, []

    def __call__(self, x0=None, p=None, **kw):
        R = self.run
        rng = R.rng
        u = R.ups[self.k]
        v = R.vehicles[self.k]
        f = u.father_updx
        var = f._var_struct(x0)
        n = len(v.basis)
        c = np.array([[rng.uniform(-1, 1) for _ in range(v.n_spl)] for _ in range(n)])
        if rng.random() < .3:
            c[-(v.degree+1):] = c[-1]
        var[v.label, 'splines_seg0'] = c
        call = {'p': p, 'x0': x0}
        if R.cfg['kind'] == 'rdv':
            con = np.array([rng.uniform(-1, 1) for _ in R.dims])
            var[u.problem.label, 'conT0'] = con
            call['x'] = con + np.array(v.rel_pos_c)
        else:
            call['x'] = np.array([c[:, d] + v.rel_pos_c[m] for m, d in enumerate(sorted(R.dims))]).ravel()
        if R.dd:
            s = u.q_ij_struct(0)
            call['z'] = {}
            for w in u.q_ij:
                z = np.array([rng.uniform(-1, 1) for _ in range(R.name(w)[2])])
                R.put(s, (w.label,), w, z)
                call['z'][w._index] = z
            var[u.label, 'z_ij'] = s.cat
        self.calls.append(call)
        return {'x': var.cat, 'lam_g': f._con_struct(0.).cat, 'f': 0.}

    def stats(self):
        return {'return_status': 'Solve_Succeeded'}

    def __getattr__(self, a):
        return getattr(self.real, a)


def leaves(v):
    if isinstance(v, dict):
        v = v.values()
    elif not isinstance(v, list):
        yield v
        return
    for w in v:
        for q in leaves(w):
            yield q


def small(it):
    """values within the model's integers: a motion continued over knots it never saw may run away"""
    for part in ('before', 'seen', 'after'):
        for d in it[part]:
            for k, v in d.items():
                lim = 4000000 if k[0] == 'l' else 200000
                if k[0] in 'xzl' and any(abs(q) > lim for q in leaves(v)):
                    return False
    return all(abs(q) < 10**8 for q in it['res'])


def admm_run(job):
    cfg, seed, acts = job
    setup()
    rng = random.Random(seed)
    F = Fleet(cfg, rng)
    Ts = cfg['Ts_ms']/1000.
    sim = og.Simulator(F.p, sample_time=Ts, update_time=cfg['upd']*Ts)
    with vlib.quiet():
        sim.deployer.reset()
        for a in acts:
            if a[0] == 'step':
                sim.step(update_time=a[1]*Ts)
            elif a[0] == 'restart':
                F.prev = None
                sim.deployer.reset()
    F.its = F.its[:sum(1 for _ in itertools.takewhile(small, F.its))]
    o = F.p.options
    return {'kind': cfg['kind'], 'N': cfg['N'], 'nd': len(F.dims), 'n': len(F.basis), 'deg': F.deg,
            'H': fix(cfg['H'], 1e6), 'ki': cfg['ki'], 'rhoN': cfg['rho'][0], 'rhoD': cfg['rho'][1],
            'inter': cfg['inter'], 'nb': [[j+1 for j in n] for n in F.nbs()],
            'acc': bool(o.get('nesterov_acceleration', False)), 'ama': bool(o.get('AMA', False)),
            'eta': bool(o.get('nesterov_reset', False)), 'its': F.its, 'obj': F.objective(),
            'case': {'cfg': cfg, 'seed': seed, 'acts': acts}}
