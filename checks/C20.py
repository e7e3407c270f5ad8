"""Figures show what was recorded, for the moment asked for."""
import random
import numpy as np
import rh
import rhgen
import sched
import vlib
from vlib import fix

XS, YS = 1e6, 1000.          # time in microseconds, the rest in thousandths
ROWS = [(3.0, 10, 100, 3), (3.0, 5, 100, 6), (6.0, 4, 200, 7), (2.4, 8, 100, 3), (2.1, 3, 70, 6), (3.0, 5, 50, 6)]
SHOWN = ['state', 'input', 'dinput']
plt = None


def setup():
    global plt
    og = rh.setup()
    import matplotlib
    import matplotlib.pyplot as p
    plt = p
    plt.switch_backend('Agg')
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.draw = lambda self, *a, **k: frames.append(self.figure)
    return og


frames = []


class Frames(list):
    """looks at a figure whenever it is drawn"""
    look = None

    def append(self, fig):
        if self.look:
            list.append(self, self.look(fig))


frames = Frames()


def ints(v, sc):
    return [fix(x, sc) for x in np.ravel(v)]


def axes(fig):
    out = []
    for ax in fig.axes:
        lines = []
        for l in ax.lines:
            x, y = l.get_data()
            if len(np.ravel(x)):
                lines.append({'x': ints(x, XS), 'y': ints(y, YS)})
        out.append({'lines': lines, 'label': ax.get_ylabel()})
    return out


def scene(fig):
    ax = fig.axes[0]
    lines = []
    for l in ax.lines:
        x, y = l.get_data()
        if len(np.ravel(x)):
            lines.append({'x': ints(x, YS), 'y': ints(y, YS)})
    surf = []
    for c in ax.collections:
        for p in c.get_paths():
            v = [[fix(a, YS), fix(b, YS)] for a, b in p.vertices]
            if len(v) > 1 and v[0] == v[-1]:
                v = v[:-1]
            if v:
                surf.append(v)
    return lines, surf


def corners(w, h, x, y, th):
    c, s = np.cos(th), np.sin(th)
    return [[fix(x + c*a - s*b, YS), fix(y + s*a + c*b, YS)] for a, b in ((w/2, h/2), (w/2, -h/2), (-w/2, -h/2), (-w/2, h/2))]


class Looker(object):
    """looks at a run of a problem: needs vehicles, sizes, obstacles, obstacle_specs, problem, plans, over"""
    roomed, sched, predictable = False, False, False

    @property
    def L(self):
        return int(self.vehicles[0].signals['time'].shape[1])

    def see(self, fig, q):
        q = dict(q, L=self.L)
        if q['fig'] == 'signal':
            q['axes'] = axes(fig)
        else:
            q['lines'], q['surfaces'] = scene(fig)
        self.asks.append(q)

    def moment(self):
        rng = self.rng
        t = np.ravel(self.vehicles[0].signals['time'])
        how = rng.choice(['time', 'time', 'time', 'index', 'now'])
        if how == 'time':
            x = rng.choice([t[-1], t[0], rng.choice(list(t)), rng.uniform(0, t[-1]), rng.uniform(0, t[-1]), t[-1] + rng.uniform(0, 1.)])
            x = round(float(x), 6)
            return how, fix(x, XS), {'time': x}
        if how == 'index':
            k = rng.randrange(len(t))
            return how, k+1, {'index': k}
        return how, 0, {}

    def show(self):
        rng = self.rng
        how, arg, kw = self.moment()
        if rng.random() < .5 and self.vehicles[0].n_dim == 2:
            q = {'fig': 'scene', 'how': how, 'arg': arg}
            what, who = 'scene', self.problem
        else:
            what = rng.choice(SHOWN if 'dinput' in self.vehicles[0].signals else SHOWN[:2])
            q = {'fig': 'signal', 'how': how, 'arg': arg, 'what': what, 'knots': rng.random() < .5, 'pred': False, 'labels': []}
            if what != 'dinput' and self.predictable:
                q['pred'] = rng.random() < .4 and all(what in v['pred'] for p in self.plans for v in p['veh'])
            kw.update(knots=q['knots'], prediction=q['pred'])
            if rng.random() < .4:
                q['labels'] = ['%s %d' % (rng.choice('abc'), k) for k in range(len(self.vehicles[0].signals[what]))]
                kw['labels'] = q['labels']
            who = self.problem.fleet
            if len(self.vehicles) == 1 and rng.random() < .7:
                who = self.vehicles[0]
        with vlib.quiet():
            p = who.plot(what, **kw)
        self.see(p['figure'], q)
        if rng.random() < .5 and len(self.open) < 2:
            self.open.append((p['figure'], q))
        else:
            who.plots.remove(p)
            plt.close(p['figure'])

    def movie(self):
        rng = self.rng
        n = rng.choice([2, 3, 5, rng.randint(2, max(2, self.L-1)), self.L+3])
        q = {'fig': 'signal', 'what': 'state', 'knots': False, 'pred': False, 'labels': []}
        del frames[:]
        frames.look = lambda fig: dict(q, axes=axes(fig))
        try:
            with vlib.quiet():
                self.problem.fleet.plot_movie('state', number_of_frames=n)
        finally:
            frames.look = None
        self.problem.fleet.plots.pop()
        self.asks.append({'fig': 'movie', 'n': n, 'frames': list(frames), 'L': self.L})

    def result(self, key):
        n = self.L
        sig = {q: [[ints(row, YS) for row in v.signals[q]] for v in self.vehicles] for q in SHOWN if q in self.vehicles[0].signals}
        things = []
        if self.vehicles[0].n_dim == 2:
            room = corners(20., 20., 0., 0., 0.)
            if self.roomed:
                things.append({'kind': 'poly', 'pts': [room]*n})
            for o, d in zip(self.obstacles, self.obstacle_specs):
                p = o.signals['position']
                if 'rect' in d:
                    th = o.signals['orientation'][0]
                    things.append({'kind': 'poly', 'pts': [corners(*d['rect'], *p[:, k], th[k] + d.get('th', 0.)) for k in range(n)]})
                    continue
                things.append({'kind': 'circle', 'rad': fix(d.get('rad', .2), YS), 'at': [[fix(a, YS) for a in p[:, k]] for k in range(n)]})
            for v, s in zip(self.vehicles, self.sizes):
                p = v.signals['pose']
                if s[0] == 'circle':
                    things.append({'kind': 'circle', 'rad': fix(s[1], YS), 'at': [[fix(a, YS) for a in p[:2, k]] for k in range(n)]})
                else:
                    things.append({'kind': 'poly', 'pts': [corners(s[1], s[2], *p[:3, k]) for k in range(n)]})
        return {'times': ints(self.vehicles[0].signals['time'], XS), 'sig': sig, 'pose': [[ints(row, YS) for row in v.signals['pose'][:2]] for v in self.vehicles],
                'plans': self.plans, 'over': self.over, 'nv': len(self.vehicles), 'things': things, 'asks': self.asks, 'case': key, 'sched': self.sched}


class Figs(Looker, rh.Run):
    """a run that is looked at"""
    def build(self):
        og, rng, c = rh.og, self.rng, self.cfg
        # shapes, before the problem is built
        self.sizes = []
        kind = getattr(og, c['vehicle'])
        wrapped = {}

        def make(options=None):
            if c['vehicle'] == 'Holonomic3D':
                self.sizes.append(None)
                return kind(shapes=og.Sphere(.3), options=options)
            if rng.random() < .5:
                r = round(rng.uniform(.1, .5), 2)
                self.sizes.append(('circle', r))
                return kind(shapes=og.Circle(r), options=options)
            w, h = round(rng.uniform(.2, .8), 2), round(rng.uniform(.2, .8), 2)
            self.sizes.append(('poly', w, h))
            return kind(shapes=og.Rectangle(w, h), options=options)
        wrapped[c['vehicle']] = make
        old = og.__dict__[c['vehicle']]
        setattr(og, c['vehicle'], make)
        try:
            rh.Run.build(self)
        finally:
            setattr(og, c['vehicle'], old)
        self.roomed = rng.random() < .5
        if self.roomed:
            self.env.room[0]['draw'] = True
        self.obstacle_specs = c.get('obstacles', [])
        self.predictable = c['vehicle'] == 'Holonomic'
        self.plans, self.over, self.asks, self.open = [], [], [], []

    # ---- what is going on, as it happens
    def go(self, n):
        before = len(self.solver.calls)
        self.act_step(n)
        call = self.solver.calls[-1]
        assert len(self.solver.calls) == before+1
        veh = []
        for v in self.vehicles:
            t, k = v.trajectories, v.trajectories_kn
            grab = lambda d: {q: [ints(row, YS) for row in np.atleast_2d(d[q])] for q in SHOWN if q in d}
            s0 = rh.parval(call, v, 'state0')
            i0 = rh.parval(call, v, 'input0')
            pr = {} if s0 is None else {'state': ints(s0, YS)}
            if i0 is not None:
                pr['input'] = ints(i0, YS)
            veh.append({'time': ints(t['time'], XS), 'sig': grab(t), 'ktime': ints(k['time'], XS), 'ksig': grab(k), 'pred': pr,
                        'pose': [ints(row, YS) for row in t['pose'][:2]]})
        self.plans.append({'veh': veh})
        self.over += [len(self.plans)]*n
        for fig, q in self.open:        # these have gone along
            self.see(fig, dict(q, how='now', arg=0))

    def snapshot(self, *a):
        pass

    history = snapshot


def one(job):
    seed, = job
    rng = random.Random(seed)
    setup()
    H, ki, ts, upd = rng.choice(ROWS)
    free = rng.random() < .3
    cfg = {'Ts_ms': ts, 'upd': upd, 'mode': 'free' if free else 'fixed', 'ki': ki, 'horizon': H,
           'vehicle': rng.choice(['Holonomic', 'Holonomic', 'HolonomicOrient', 'Holonomic3D']), 'nveh': rng.choice([1, 1, 2])}
    cfg['idealp'], cfg['idealu'] = rng.choice([(False, False), (True, True)])
    if free:
        cfg['ki'] = 3
        cfg['Ts_set'] = rhgen.times_left(rng, upd*ts/1000., upd)
    if cfg['vehicle'] != 'Holonomic3D':
        cfg['obstacles'] = [rhgen.obstacle(rng, 2) for _ in range(rng.randint(0, 3))]
        for o in cfg['obstacles']:
            if rng.random() < .6:
                o['rect'] = [round(rng.uniform(.2, 2.), 2), round(rng.uniform(.2, 2.), 2)]
                o['initial']['orientation'] = round(rng.uniform(-3, 3), 2)
                if rng.random() < .6:
                    o['initial']['angular_velocity'] = rng.choice([-1, 1])*round(rng.uniform(.1, 1.), 2)
                    o['options'] = {'horizon_time': H}
    r = Figs(cfg, random.Random(rng.randint(0, 10**9)))
    r.init_states = []
    r.act_restart()
    acts = [a for a in rhgen.schedule(rng, cfg, 6, free) if a[0] == 'step']
    for a in acts[:rng.randint(2, 5)]:
        r.go(a[1])
        for _ in range(rng.randint(0, 3)):
            r.show()
    r.show()
    r.movie()
    plt.close('all')
    return r.result({'seed': seed, 'cfg': cfg})


class SchedFigs(Looker):
    """a vehicle on its way through frames, planned by the real optimization"""
    sched = True

    def __init__(self, rng):
        self.rng = rng
        sched.setup()
        og = sched.og
        w = sched.corridor_world(rng)
        w['mov'] = [dict(o, kind=rng.choice(['rect', 'circle', 'turned']), v=[o['v'][0]*.3, o['v'][1]*.3]) for o in w['mov'][:2]]
        w['r'] = rng.choice([.1, .2])
        nf = rng.choice([1, 2, 2, 3])
        self.upd = rng.choice([.3, .5, .8])

        def spot(far=None):
            for _ in range(400):
                p = [sched.r2(rng, w['c'][k]-w[s]/2, w['c'][k]+w[s]/2) for k, s in ((0, 'W'), (1, 'H'))]
                if sched.free(w, p, w['cell']+.25) and (far is None or np.hypot(p[0]-far[0], p[1]-far[1]) > 2.5):
                    return p
        p = spot()
        g = spot(p) if p else None
        self.ok = False
        if g is None:
            return
        if any(np.hypot(o['p'][0]-q[0], o['p'][1]-q[1]) < 1.5 for o in w['mov'] for q in (p, g)):
            w['mov'] = []
        env, obs = sched.make_env(w)
        v = og.Holonomic(shapes=og.Circle(w['r']), bounds={'vmax': 1., 'vmin': -1., 'amax': 2., 'amin': -2.})
        v.define_knots(knot_intervals=8)
        v.set_initial_conditions(list(p))
        v.set_terminal_conditions(list(g))
        planner = og.AStarPlanner(env, w['nc'], list(p), list(g), {'veh_size': w['r']})
        try:
            with vlib.quiet():
                planner.get_path()
        except RuntimeError:
            return
        with vlib.quiet():
            sp = og.SchedulerProblem(v, env, planner, options={
                'freeT': True, 'frame_type': 'corridor', 'n_frames': nf, 'scale_up_fine': True, 'l_shape': rng.random() < .3, 'verbose': 0,
                'check_moving_obs_ts': .25, 'solver_options': {'ipopt': {'ipopt.print_level': 0, 'print_time': 0}}})
            sp.init()
            self.sim = og.Simulator(sp, sample_time=.1, update_time=self.upd)
            self.sim.deployer.reset()
        self.problem, self.vehicles, self.sizes = sp, [v], [('circle', w['r'])]
        self.obstacles = obs
        self.obstacle_specs = []
        for o in w['obs'] + w['mov']:
            if o['kind'] == 'circle':
                self.obstacle_specs.append({'rad': o['w']/2.})
            else:
                self.obstacle_specs.append({'rect': [o['w'], o['w'] if o['kind'] == 'square' else o['h']], 'th': o.get('th', 0.)})
        self.plans, self.over, self.asks, self.open = [], [], [], []
        self.ok = True

    def go(self):
        v, sp = self.vehicles[0], self.problem
        before = self.L if hasattr(v, 'signals') else 1
        with vlib.quiet():
            stop = self.sim.step(update_time=self.upd)[3]
        t, k = v.trajectories, v.trajectories_kn
        grab = lambda d: {q: [ints(row, YS) for row in np.atleast_2d(d[q])] for q in SHOWN if q in d}
        if self.L == before:
            return stop
        limits = [[float(x) for x in f.border['limits']] for f in sp.frames]
        self.plans.append({'veh': [{'time': ints(t['time'], XS), 'sig': grab(t), 'ktime': ints(k['time'], XS), 'ksig': grab(k), 'pred': {},
                                    'pose': [ints(row, YS) for row in t['pose'][:2]]}],
                           'frames': [corners(L[2]-L[0], L[3]-L[1], (L[0]+L[2])/2, (L[1]+L[3])/2, 0.) for L in limits],
                           'path': [ints([q[c] for q in sp.global_path[:-1]], YS) for c in (0, 1)]})
        self.over += [len(self.plans)]*(self.L-before)
        for fig, q in self.open:
            self.see(fig, dict(q, how='now', arg=0))
        return stop


def sched_one(job):
    rng = random.Random(job[0])
    setup()
    for _ in range(20):
        r = SchedFigs(rng)
        if r.ok:
            break
    stop = False
    for k in range(40):
        stop = r.go()
        if stop:
            break
        if rng.random() < .3:
            r.show()
    for _ in range(4):
        r.show()
    r.movie()
    plt.close('all')
    return r.result({'seed': job[0], 'frames': True})


def resid_one(job):
    """figures of how far a fleet is from agreement"""
    rng = random.Random(job[0])
    setup()
    import admm
    admm.setup()
    kind = rng.choice(['admm', 'dd', 'dd'])
    Ts = .1
    F = admm.Fleet({'kind': kind, 'N': 2 if kind == 'dd' else 3, 'vehicle': 'Holonomic', 'inter': 'circular', 'ki': 4, 'H': 2.4, 'Ts_ms': 100, 'upd': 1, 'rho': (1, 1),
                    'init_iter': rng.choice([1, 2, 3]), 'max_iter': rng.choice([1, 2])}, rng)
    sim = rh.og.Simulator(F.p, sample_time=Ts, update_time=Ts)
    asks, open_ = [], []

    def see(fig):
        r = F.p.residuals
        asks.append({'fig': 'residuals', 'axes': [[{'x': ints(l.get_xdata(), 1), 'y': ints(l.get_ydata(), 1000)} for l in ax.lines if len(np.ravel(l.get_xdata()))] for ax in fig.axes],
                     'labels': [ax.get_ylabel() for ax in fig.axes], 'want': [ints(np.log10(r[k]), 1000) for k in ('primal', 'dual', 'combined') if k in r]})
    with vlib.quiet():
        sim.deployer.reset()
        for k in range(rng.randint(2, 4)):
            sim.step(update_time=Ts*rng.randint(1, 2))
            for f in open_:
                see(f)
            if not open_ or rng.random() < .3:
                p = F.p.plot('residuals')
                see(p['figure'])
                open_.append(p['figure'])
    plt.close('all')
    return {'asks': asks, 'case': {'seed': job[0], 'residuals': kind}}


BODIES = ['Dubins', 'Dubins', 'Bicycle', 'AGV', 'Holonomic', 'HolonomicOrient', 'Trailer', 'Quadrotor', 'Quadrotor3D', 'SimpleQuadrotor3D']


def body_one(job):
    """how vehicles draw themselves: at rest in the origin, and at the moments of a history"""
    rng = random.Random(job[0])
    og = setup()
    from omgtools.vehicles.quadrotor3d_simple import SimpleQuadrotor3D
    kind = BODIES[rng.randrange(len(BODIES))]

    def shape():
        k = rng.choice(['circle', 'circle', 'rect', 'square', 'poly'])
        a, b = round(rng.uniform(.2, .8), 2), round(rng.uniform(.2, .8), 2)
        return {'circle': lambda: og.Circle(a), 'rect': lambda: og.Rectangle(a, b, orientation=rng.choice([0., .5])), 'square': lambda: og.Square(a),
                'poly': lambda: og.RegularPolyhedron(a, rng.choice([3, 5, 6]))}[k]()
    with vlib.quiet():
        if kind in ('Dubins', 'Holonomic', 'HolonomicOrient'):
            shapes = [shape()]
            v = getattr(og, kind)(shapes=shapes[0])
        elif kind in ('Bicycle', 'AGV'):
            shapes = []
            v = getattr(og, kind)(length=round(rng.uniform(.3, 1.), 2), options={'plot_type': rng.choice(['car', 'bicycle' if kind == 'Bicycle' else 'agv'])})
        elif kind == 'Trailer':
            lead = og.Dubins(shapes=og.Circle(round(rng.uniform(.1, .4), 2)))
            a, b = round(rng.uniform(.2, .6), 2), round(rng.uniform(.2, .6), 2)
            v = og.Trailer(lead_veh=lead, shapes=rng.choice([og.Circle(a), og.Rectangle(a, b)]), l_hitch=round(rng.uniform(.4, 1.), 2))
        elif kind == 'Quadrotor':
            v = og.Quadrotor(round(rng.uniform(.1, .6), 2))
        elif kind == 'Quadrotor3D':
            v = og.Quadrotor3D(round(rng.uniform(.1, .6), 2))
        else:
            v = SimpleQuadrotor3D(round(rng.uniform(.1, .6), 2))
    n = rng.randint(2, 6)
    nst = {'Dubins': 3, 'Bicycle': 4, 'AGV': 4, 'Holonomic': 2, 'HolonomicOrient': 3, 'Trailer': 6, 'Quadrotor': 5, 'Quadrotor3D': 8, 'SimpleQuadrotor3D': 8}[kind]
    state = np.array([[rng.uniform(-2., 2.) for _ in range(n)] for _ in range(nst)])
    angles = {'Dubins': [2], 'Bicycle': [2, 3], 'AGV': [2, 3], 'HolonomicOrient': [2], 'Trailer': [2, 5], 'Quadrotor': [4], 'Quadrotor3D': [6, 7], 'SimpleQuadrotor3D': [6, 7]}.get(kind, [])
    for k in angles:
        state[k] = [rng.uniform(-3., 3.) if not (k == 3) else rng.uniform(-.8, .8) for _ in range(n)]
    if kind == 'Trailer':       # the one is hitched to the other
        state[3] = state[0] + v.l_hitch*np.cos(state[2])
        state[4] = state[1] + v.l_hitch*np.sin(state[2])

    def put(st):
        st = np.asarray(st, dtype=float)
        v.signals = {'state': st, 'pose': np.array([v.state2pose(st[:, k]) for k in range(st.shape[1])]).T, 'input': np.zeros((3, st.shape[1])), 'time': np.arange(st.shape[1])*.1}
        if kind in ('Bicycle', 'AGV'):
            v.signals['delta'] = st[3:4]

    def drawn(t=None):
        with vlib.quiet():
            su, li = v.draw() if t is None else v.draw(t)
        return [[[fix(a, YS) for a in np.ravel(c)] for c in np.asarray(x).T] for x in list(su) + list(li)]
    rest = np.zeros((nst, 1))
    if kind == 'Trailer':
        rest[3] = v.l_hitch
    put(rest)
    home = drawn(0)
    put(state)
    views = []
    for t in list(range(n)) + [None]:
        k = n-1 if t is None else t
        trig = lambda a: {'c': fix(np.cos(a), YS), 's': fix(np.sin(a), YS)}
        st = state[:, k]
        th = {'Quadrotor': -st[4] if kind == 'Quadrotor' else 0.}.get(kind, st[2] if kind in ('Dubins', 'Bicycle', 'AGV', 'HolonomicOrient', 'Trailer') else 0.)
        view = {'at': [fix(a, YS) for a in (st[:3] if 'Quadrotor3D' in kind else st[:2])], 'turn': trig(th), 'steer': trig(st[3] if kind in ('Bicycle', 'AGV') else 0.),
                'lead': {'at': [fix(a, YS) for a in (st[3:5] if kind == 'Trailer' else st[:2])], 'turn': trig(st[5] if kind == 'Trailer' else th)},
                'roll': trig(st[6] if 'Quadrotor3D' in kind else 0.), 'pitch': trig(st[7] if 'Quadrotor3D' in kind else 0.), 'drawn': drawn(t)}
        views.append(view)
    hitch = fix(v.l_hitch, YS) if kind == 'Trailer' else 0
    own = len(v.shapes) if kind == 'Trailer' else 0
    return {'asks': [{'fig': 'body', 'kind': kind, 'three': 'Quadrotor3D' in kind, 'home': home, 'views': views, 'hitch': hitch, 'own': own}], 'case': {'seed': job[0], 'vehicle': kind}}


def any_one(job):
    return {'sched': sched_one, 'run': one, 'resid': resid_one, 'body': body_one}[job[1]](job[:1])


def rng_job(ctx):
    return ctx.rng.randint(0, 10**9)


DESIGN = ('SPECIFICATION Spec\nCONSTANTS\n MaxL = %d\n Steps = {%s}\n Ts = %d\n MaxFigs = %d\n'
          'INVARIANTS InForce InPast HalfSample MoviesExist\nCHECK_DEADLOCK FALSE\n')


def run(ctx):
    ctx.assumptions += ['the optimizer is replaced by a stand-in that answers with arbitrary plans', 'figures are read back from matplotlib (lines and outlines), not from pixels',
                        'values are compared on a grid of 1e-3, times of 1e-6 s', 'TLC is trusted to evaluate the specification']
    for k, p in enumerate([(9, '1, 2, 3', 4, 2), (12, '2, 5', 3, 2)] + ([] if ctx.quick else [(16, '1, 3, 4', 4, 2), (20, '2, 3, 7', 2, 2)])):
        ctx.design('FiguresModel', DESIGN % p, name='FiguresModel_%d' % k, workers=4)
    recs = []
    jobs = [(rng_job(ctx), kind) for kind, n in (('sched', 10 if ctx.quick else 100), ('run', 48 if ctx.quick else 400), ('resid', 8 if ctx.quick else 40), ('body', 40 if ctx.quick else 400)) for _ in range(n)]
    for job, (st, r) in zip(jobs, vlib.parallel(any_one, jobs, 8, 400)):
        if st != 'ok':
            ctx.violation('figure.raises', str(r)[-900:], {'job': job})
        else:
            recs.append(r)
    ctx.evals = sum(len(r['asks']) for r in recs)
    for r in recs[:3]:
        ctx.sample({'case': r['case'], 'asks': [{k: v for k, v in q.items() if k in ('fig', 'how', 'arg', 'what', 'n', 'L')} for q in r['asks'][:6]]})
    ctx.judge('FiguresTrace', recs, shards=8)


if __name__ == '__main__':
    vlib.main('C20', run)
