"""Drives the real simulator / deployer and records what a receding horizon run does.

The optimizer is either the real one or a stand-in that answers with a plan chosen by the harness
(so that plans are as lively as they can be and no seam is hidden by a vehicle that stands still).
What is recorded is what the tool hands to the optimizer (parameters, first guess), what it publishes
(trajectories) and what it writes in its histories (signals, storage); plans are evaluated here by
scipy from the raw coefficients, not by the tool's own spline code."""
import warnings
import numpy as np
import vlib
from vlib import fix

SC = 10000          # positions, velocities
TSC = 1000000       # microseconds
og = None


def setup():
    global og
    if og is None:
        og = vlib.import_repo()
        warnings.simplefilter('ignore')
    return og


def bspl(knots, c, degree, x, nu=0):
    from scipy.interpolate import BSpline as SB
    s = SB(np.asarray(knots, float), np.asarray(c, float), degree, extrapolate=True)
    if nu:
        s = s.derivative(nu)
    x = np.asarray(x, float)
    return np.asarray(s(np.clip(x, 0., 1.)))


def table(knots, degree, coeffs, horizon, ticks, Ts, nu=0):
    """rows per tick, columns per spline: value (or time derivative) of the plan at tick*Ts"""
    t = np.asarray(ticks)*Ts/horizon
    cols = [bspl(knots, coeffs[:, k], degree, t, nu)/horizon**nu for k in range(coeffs.shape[1])]
    return np.array(cols).T


def rows(a, sc=SC):
    return [[fix(v, sc) for v in row] for row in np.atleast_2d(a)]


def cols(a, sc=SC):
    """signals are stored one column per sample"""
    a = np.atleast_2d(np.asarray(a, float))
    return rows(a.T, sc) if a.shape[1] else []


def crc(arrays):
    import zlib
    c = 0
    for a in arrays:
        c = zlib.crc32(np.ascontiguousarray(np.atleast_2d(a), float).tobytes(), c)
    return c & 0x3fffffff


class Solver(object):
    """stands between the tool and the optimizer"""

    def __init__(self, problem, script=None):
        self.problem = problem
        self.real = problem.problem
        self.script = script
        self.calls = []
        problem.problem = self

    def __call__(self, x0=None, p=None, lbg=None, ubg=None, **kw):
        f = self.problem.father
        call = {'guess': {}, 'par': {}}
        for v in self.problem.vehicles:
            for s in range(getattr(v, 'n_seg', 1)):
                nm = 'splines_seg%d' % s
                call['guess'][v, s] = np.array(f._var_struct(x0)[v.label, nm])
        call['p'] = f._par_struct(p)
        call['x0'] = f._var_struct(x0)
        call['lb'], call['ub'] = np.array(lbg.cat if hasattr(lbg, 'cat') else lbg).ravel(), \
            np.array(ubg.cat if hasattr(ubg, 'cat') else ubg).ravel()
        self.calls.append(call)
        if self.script is None:
            self.res = self.real(x0=x0, p=p, lbg=lbg, ubg=ubg, **kw)
            self.status = self.real.stats()['return_status']
            return self.res
        var = f._var_struct(x0)
        plan = self.script(self, call)
        for (label, name), val in plan.items():
            var[label, name] = val
        # some answers come too late: the tool falls back on a default guess
        self.status = 'Maximum_CpuTime_Exceeded' if self.late() else 'Solve_Succeeded'
        n = f._con_struct(0.).cat.shape[0] if hasattr(f, '_con_struct') else 0
        return {'x': var.cat, 'lam_g': f._con_struct(0.).cat, 'f': 0.}

    def stats(self):
        return {'return_status': self.status}

    def late(self):
        return False


def parval(call, child, name):
    try:
        return np.array(call['p'][child.label, name], float).ravel()
    except Exception:
        return None


class Run(object):
    """one recorded run of a point-to-point problem with one or more vehicles"""

    def __init__(self, cfg, rng):
        setup()
        self.cfg = cfg
        self.rng = rng
        self.Ts = cfg['Ts_ms']/1000.
        self.upd = cfg['upd']                 # ticks
        self.ev = []
        self.mode = cfg['mode']
        self.build()

    # -- building ---------------------------------------------------------
    def build(self):
        c, rng = self.cfg, self.rng
        self.vehicles = []
        for n in range(c.get('nveh', 1)):
            opts = {'ideal_prediction': c['idealp'], 'ideal_update': c['idealu']}
            kind = c.get('vehicle', 'Holonomic')
            v = getattr(og, kind)(options=opts)
            v.define_knots(knot_intervals=c['ki'])
            nd = v.n_spl
            v.set_initial_conditions([rng.uniform(-2, 2) for _ in range(nd)])
            v.set_terminal_conditions([rng.uniform(-2, 2) for _ in range(nd)])
            self.vehicles.append(v)
        dim = self.vehicles[0].n_dim
        room = og.Cube(20.) if dim == 3 else og.Square(20.)
        self.env = og.Environment(room={'shape': room})
        self.obstacles = []
        for o in c.get('obstacles', []):
            sh = og.Circle(0.2) if dim == 2 else og.Sphere(0.2)
            if 'rect' in o:
                sh = og.Rectangle(*o['rect'])
            sim = {'trajectories': o['traj']} if 'traj' in o else {}
            ob = og.Obstacle({k: list(v) if isinstance(v, list) else v for k, v in o['initial'].items()}, shape=sh, simulation=sim,
                             options=dict({'avoid': o.get('avoid', False)}, **o.get('options', {})))
            self.obstacles.append(ob)
            self.env.add_obstacle(ob)
        popt = {'verbose': 0, 'solver_options': {'ipopt': {'ipopt.tol': 1e-6}}}
        if self.mode == 'fixed':
            popt['horizon_time'] = c['horizon']
        with vlib.quiet():
            self.problem = og.Point2point(self.vehicles if len(self.vehicles) > 1 else self.vehicles[0],
                                          self.env, options=popt, freeT=(self.mode == 'free'))
            self.problem.init()
        self.solver = Solver(self.problem, None if c.get('real') else self.answer)
        if c.get('late'):
            self.solver.late = lambda: rng.random() < .3
        if c.get('deploy'):
            self.dep = og.Deployer(self.problem, self.Ts, self.upd*self.Ts)
        else:
            self.sim = og.Simulator(self.problem, sample_time=self.Ts, update_time=self.upd*self.Ts)
        self.seen = [1]*len(self.vehicles)
        self.oseen = [1]*len(self.obstacles)
        self.ocrc0 = [crc([np.atleast_2d(o.signals[q]) for q in sorted(o.signals)]) for o in self.obstacles]

    def answer(self, solver, call):
        """a plan of the harness' own making: the first one starts where the vehicle is"""
        out = {}
        rng = self.rng
        for v in self.vehicles:
            n = len(v.basis)
            amp = self.cfg.get('amp', 1.)
            if self.mode == 'free':
                # a cubic in disguise: can be re-expressed on any knots without loss
                g = np.array([np.mean(v.knots[j+1:j+1+v.degree]) for j in range(n)])
                from scipy.interpolate import make_lsq_spline
                x = np.linspace(0., 1., 60)
                c = np.array([make_lsq_spline(x, np.polyval([rng.uniform(-amp, amp) for _ in range(4)], x),
                                              v.knots, v.degree).c for _ in range(v.n_spl)]).T
            else:
                c = np.array([[rng.uniform(-amp, amp) for _ in range(v.n_spl)] for _ in range(n)])
            r = rng.random()
            if r < .25:                # motion along some of the axes only
                k = rng.randrange(v.n_spl)
                c[:, k] = rng.choice([0., 1.])*c[0, k]
            elif r < .3 and v.n_spl > 1:
                c[:, 1] = c[:, 0]
            if not hasattr(v, 'signals'):
                s0 = parval(call, v, 'state0')
                if s0 is not None:
                    c = c + (s0 - c[0])
            out[v.label, 'splines_seg0'] = c
        if self.mode == 'free':
            T0 = getattr(self, 'lastT', None)
            self.lastT = rng.choice(self.cfg['Ts_set'])
            out[self.problem.label, 'T'] = self.lastT
        return out

    # -- recording --------------------------------------------------------
    def plan_of(self, v):
        return np.array(self.problem.father.get_variables(v, 'splines_seg0', spline=False), float)

    def horizon(self):
        if self.mode == 'fixed':
            return self.cfg['horizon']
        return float(np.ravel(self.problem.father.get_variables(self.problem, 'T'))[0])

    def snapshot(self, e, now=None):
        """what one re-plan did, per vehicle"""
        call = self.solver.calls[-1]
        H = self.horizon()
        e['Hus'] = fix(H, TSC)
        if self.mode == 'fixed':
            e['t'] = fix(parval(call, self.problem, 't')[0], TSC)
            e['T'] = fix(parval(call, self.problem, 'T')[0], TSC)
            gH = H
        else:
            e['t'] = fix(parval(call, self.problem, 't')[0], TSC)
            gH = float(np.array(call['x0'][self.problem.label, 'T']).ravel()[0])
            e['T'] = fix(gH, TSC)
        # tables are anchored at "now", which lies t after the plan's own origin
        t = e['t']/float(TSC)
        n = int(np.floor(round((H-t)/self.Ts, 6)))
        ticks = t/self.Ts + np.arange(n+1)
        e['nrow'] = n+1
        e['veh'] = []
        for v in self.vehicles:
            d = {}
            co = self.plan_of(v)
            d['pos'] = rows(table(v.knots, v.degree, co, H, ticks, self.Ts))
            d['vel'] = rows(table(v.knots, v.degree, co, H, ticks, self.Ts, 1))
            d['acc'] = rows(table(v.knots, v.degree, co, H, ticks, self.Ts, 2))
            g = call['guess'][v, 0]
            gN = int(np.floor(round((gH-t)/self.Ts, 6)))
            d['guess'] = rows(table(v.knots, v.degree, g, gH, t/self.Ts+np.arange(max(gN, 0)+1), self.Ts)) \
                if gH > 0 else []
            d['s0'] = [fix(x, SC) for x in parval(call, v, 'state0')]
            i0 = parval(call, v, 'input0')
            d['i0'] = [] if i0 is None else [fix(x, SC) for x in i0]
            d['goal'] = [fix(x, SC) for x in parval(call, v, 'poseT')]
            d['want'] = [fix(x, SC) for x in np.ravel(v.poseT)]
            tr = v.trajectories
            d['tr'] = {'time': [fix(x, TSC) for x in np.ravel(tr['time'])], 'state': cols(tr['state']),
                       'input': cols(tr['input']), 'pose': cols(tr['pose']), 'dd': []}
            for key in ('dinput', 'a'):
                if key in tr:
                    d['tr']['dd'] = cols(tr[key])
            # the same plan once more, at its knots
            tk = v.trajectories_kn
            kt = np.array(v.knots[v.degree:-v.degree])*H
            kt = np.r_[t, kt[kt > t + 1e-9]]
            d['kn'] = {'time': [fix(x - now, TSC) for x in np.ravel(tk['time'])], 'state': cols(tk['state']),
                       'input': cols(tk['input']), 'sizes': sorted(set(np.atleast_2d(x).shape[1] for x in tk.values())),
                       'want': [fix(x - t, TSC) for x in kt],
                       'pos': rows(table(v.knots, v.degree, co, H, kt, 1.)),
                       'vel': rows(table(v.knots, v.degree, co, H, kt, 1., 1))}
            e['veh'].append(d)
        e['obs'] = []
        for o in self.obstacles:
            e['obs'].append({'x': [fix(x, SC) for x in parval(call, o, 'x')],
                             'v': [fix(x, SC) for x in parval(call, o, 'v')],
                             'a': [fix(x, SC) for x in parval(call, o, 'a')]})

    def history(self, e):
        """what was added to the histories since the last look, and a checksum of what was there"""
        e['hist'] = []
        for k, v in enumerate(self.vehicles):
            n0 = self.seen[k]
            lens = sorted(set(int(np.atleast_2d(x).shape[1]) for x in v.signals.values()))
            st = sorted(set(len(x) for x in v.traj_storage.values()) |
                        set(len(x) for x in v.traj_storage_kn.values()))
            full = [v.signals[q] for q in sorted(v.signals)]
            cut = [np.atleast_2d(x)[:, :n0] for x in full]
            h = {'lens': lens, 'stores': st,
                 's0': cols(v.signals['state'][:, :1])[0],
                 'time': [fix(x, TSC) for x in np.ravel(v.signals['time'])[n0:]],
                 'state': cols(v.signals['state'][:, n0:]), 'input': cols(v.signals['input'][:, n0:]),
                 'pose': cols(v.signals['pose'][:, n0:]),
                 'pre': crc(cut) if n0 > 1 else 0, 'crc': crc(full),
                 'stime': [fix(np.ravel(x)[0], TSC) for x in v.traj_storage['time'][max(n0-1, 0):]]}
            self.seen[k] = int(np.atleast_2d(v.signals['time']).shape[1])
            e['hist'].append(h)
        e['ohist'] = []
        for k, o in enumerate(self.obstacles):
            n0 = self.oseen[k]
            full = [np.atleast_2d(o.signals[q]) for q in sorted(o.signals)]
            e['ohist'].append({'lens': sorted(set(x.shape[1] for x in full)),
                               'time': [fix(x, TSC) for x in np.ravel(o.signals['time'])[n0:]],
                               'pre': crc([x[:, :n0] for x in full]), 'crc': crc(full),
                               'last': [fix(x, SC) for x in o.signals['position'][:, -1]]})
            self.oseen[k] = int(len(np.ravel(o.signals['time'])))

    # -- actions ----------------------------------------------------------
    def act_step(self, ticks):
        """one simulator step of the given length"""
        now = self.sim.current_time
        r0 = self.sim.deployer.iteration0
        with vlib.quiet():
            self.sim.step(update_time=ticks*self.Ts)
        e = {'e': 'upd', 'nowus': fix(float(now), TSC), 'now': int(round(float(now)/self.Ts)), 'first': bool(r0),
             'how': 'auto', 'meas': [], 'minp': []}
        self.snapshot(e, now)
        self.ev.append(e)
        s = {'e': 'sim', 'n': ticks, 'nowus': fix(float(self.sim.current_time), TSC),
             'clen': int(len(self.sim.time)), 'cend': fix(self.sim.time[-1], TSC)}
        self.history(s)
        self.ev.append(s)

    def act_once(self, hard=None):
        """the whole plan at once, or up to a hard stop after so many samples"""
        now = self.sim.current_time
        e = {'e': 'upd', 'nowus': fix(float(now), TSC), 'now': int(round(float(now)/self.Ts)), 'first': True,
             'how': 'auto', 'meas': [], 'minp': []}
        s = {'e': 'sim'}
        later = []
        solve = self.problem.simulate

        def seen(*a, **k):
            self.snapshot(e, now)
            solve(*a, **k)
            self.history(s)
        self.problem.simulate = seen
        try:
            with vlib.quiet():
                if hard:
                    pert = [[self.rng.uniform(-.5, .5) for _ in range(v.n_spl)] for v in self.vehicles]
                    out = self.sim.run_once(hard_stop={'time': hard*self.Ts, 'perturbation': pert})
                    for k, (v, p) in enumerate(zip(self.vehicles, pert)):
                        later.append({'e': 'stop', 'v': k+1, 'by': [fix(x, SC) for x in p], 'state': [fix(x, SC) for x in v.signals['state'][:, -1]],
                                      'predicted': [fix(x, SC) for x in np.ravel(v.prediction['state'])],
                                      'input': [fix(x, SC) for x in np.ravel(v.prediction['input'])],
                                      'crc': crc([v.signals[q] for q in sorted(v.signals)])})
                else:
                    out = self.sim.run_once()
        finally:
            del self.problem.simulate
        self.ev.append(e)
        t = [out] if len(self.vehicles) == 1 else [out[str(v)] for v in self.vehicles]
        if any(a is not v.trajectories for a, v in zip(t, self.vehicles)):
            raise AssertionError('the simulator returned other trajectories than it published')
        s.update({'n': hard or e['nrow']-1, 'nowus': fix(float(self.sim.current_time), TSC), 'clen': int(len(self.sim.time)),
                  'cend': fix(self.sim.time[-1], TSC)})
        self.ev.append(s)
        self.ev += later

    def act_run(self, updates):
        """the simulator on its own, until the problem says that it is over"""
        todo, sim, stop = [updates], self.problem.simulate, self.problem.stop_criterium
        rec = []

        def clock(s):
            s.update({'nowus': fix(float(self.sim.current_time), TSC), 'clen': int(len(self.sim.time)), 'cend': fix(self.sim.time[-1], TSC)})

        def seen(*a, **k):
            now = self.sim.current_time
            if rec:
                clock(rec[-1])
            e = {'e': 'upd', 'nowus': fix(float(now), TSC), 'now': int(round(float(now)/self.Ts)), 'first': not rec,
                 'how': 'auto', 'meas': [], 'minp': []}
            self.snapshot(e, now)
            sim(*a, **k)
            s = {'e': 'sim', 'n': self.upd}
            self.history(s)
            rec.extend([e, s])

        def over(*a, **k):
            todo[0] -= 1
            return todo[0] == 0
        self.problem.simulate, self.problem.stop_criterium = seen, over
        try:
            with vlib.quiet():
                self.sim.run()
        finally:
            del self.problem.simulate, self.problem.stop_criterium
        clock(rec[-1])
        self.ev += rec

    def act_update(self, ticks=None):
        """the simulator's own update"""
        self.act_step(ticks or self.upd)

    def act_sleep(self, ticks):
        with vlib.quiet():
            self.sim.sleep(ticks*self.Ts)
        s = {'e': 'sleep', 'n': ticks, 'nowus': fix(float(self.sim.current_time), TSC),
             'clen': int(len(self.sim.time)), 'cend': fix(self.sim.time[-1], TSC)}
        self.history(s)
        self.ev.append(s)

    def act_newgoal(self):
        for v in self.vehicles:
            v.set_terminal_conditions([self.rng.uniform(-2, 2) for _ in range(v.n_spl)])

    def act_restart(self):
        with vlib.quiet():
            self.sim.deployer.reset()

    def act_overrule(self):
        """the user replaces the measured state of the first vehicle"""
        n = self.rng.randrange(len(self.vehicles))
        v = self.vehicles[n]
        s = [self.rng.uniform(-2, 2) for _ in range(v.n_spl)]
        i = [self.rng.uniform(-.5, .5) for _ in range(v.n_spl)]
        v.overrule_state(s)
        v.overrule_input(i)
        self.ev.append({'e': 'over', 'v': n+1, 'state': [fix(x, SC) for x in s],
                        'crc': crc([v.signals[q] for q in sorted(v.signals)])})

    def act_dep(self, ticks, how):
        """the deployer on its own: states come from outside, nothing is simulated"""
        rng = self.rng
        first = bool(self.dep.iteration0)
        self.ticks = getattr(self, 'ticks', self.cfg['start']) + (0 if not self.ev else ticks)
        if self.ev:
            self.ev.append({'e': 'jump', 'now': self.ticks})
        now = self.ticks*self.Ts
        meas = [[rng.uniform(-2, 2) for _ in range(v.n_spl)] for v in self.vehicles]
        minp = [[rng.uniform(-.5, .5) for _ in range(v.n_spl)] for v in self.vehicles]
        kw = {}
        if how in ('enforce', 'enforce2'):
            kw['enforce_states'] = True
        if how == 'enforce2':
            kw['enforce_inputs'] = True
            kw['inputs'] = [np.array(i) for i in minp]
        one = len(self.vehicles) == 1
        form = rng.randrange(3)
        states = [np.array(m) for m in meas] if form == 0 else ([list(m) for m in meas] if form == 1 or not one
                                                               else list(meas[0]))
        with vlib.quiet():
            out = self.dep.update(now, states, **kw)
        if first and how == 'meas':
            how = 'enforce'
        e = {'e': 'upd', 'nowus': fix(self.dep.current_time, TSC), 'now': self.ticks, 'first': first,
             'how': 'enforce' if how == 'enforce2' else how, 'meas': rows(meas),
             'minp': rows(minp) if how == 'enforce2' else [[0]*len(m) for m in meas]}
        for v in self.vehicles:
            t = out if one else out[str(v)]
            if t is not v.trajectories:
                raise AssertionError('the deployer returned other trajectories than it published')
        self.snapshot(e, now)
        self.ev.append(e)

    def act_depreset(self):
        with vlib.quiet():
            self.dep.reset()

    def record(self, **kw):
        c = self.cfg
        d = {'kind': 'run', 'mode': self.mode, 'Ts': c['Ts_ms'], 'upd': self.upd,
             'idealp': bool(c['idealp']), 'idealu': bool(c['idealu']),
             'nv': len(self.vehicles), 'nd': self.vehicles[0].n_spl,
             'ki': c['ki'], 'Hus': fix(c.get('horizon', 0.), TSC), 'start': c.get('start', 0), 'tol': 2, 'gtol': 1,
             'lenslack': 0, 'ocrc0': self.ocrc0, 'props': ['clock', 'seam', 'published', 'applied',
                                                           'horizon', 'guess'],
             'case': {'cfg': {k: v for k, v in c.items()}, 'acts': getattr(self, 'acts', None)},
             'init': [[fix(x, SC) for x in np.ravel(s)] for s in self.init_states], 'ev': self.ev}
        d.update(kw)
        return d


def simrun(job):
    """job: (cfg, seed, acts) ; acts: list of ('step', ticks) / ('sleep', ticks) / ('goal',) / ..."""
    import random
    cfg, seed, acts = job
    setup()
    r = Run(cfg, random.Random(seed))
    r.init_states = [np.array(v.prediction['state'], float) for v in r.vehicles]
    r.acts = acts
    if cfg.get('deploy'):
        r.act_depreset()
    else:
        r.act_restart()
    for a in acts:
        getattr(r, 'act_' + a[0])(*a[1:])
    return r.record()
