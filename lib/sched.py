"""Drives the real scheduler (SchedulerProblem: frames, switching, moving obstacles) with a stand-in
for the optimization: the local problems are built for real, but not solved; the vehicle is moved
along the waypoints of the frames by the harness."""
import math
import random
import numpy as np
import vlib

og = None


def setup():
    global og
    if og is None:
        og = vlib.import_repo()


def r2(rng, a, b, q=2):
    return round(rng.uniform(a, b), q)


def rand_world(rng):
    """room, obstacles and a vehicle in it; sizes in metres, multiples of 1e-2"""
    W, H = rng.choice([(10., 10.), (12., 8.), (8., 14.), (20., 16.), (30., 10.)])
    cx, cy = rng.choice([(0., 0.), (r2(rng, -5, 5, 1), r2(rng, -5, 5, 1))])
    r = rng.choice([.1, .2, .25, .3])
    nc = [int(W//rng.choice([.8, 1., 1.25])), int(H//rng.choice([.8, 1., 1.25]))]
    obs = []
    for _ in range(rng.randint(0, 7)):
        kind = rng.choice(['rect', 'rect', 'wall', 'square', 'circle'])
        if kind == 'wall':
            a, b = r2(rng, .1, .5), r2(rng, 2, .6*min(W, H))
            w, h = (a, b) if rng.random() < .5 else (b, a)
        else:
            w, h = r2(rng, .2, 3), r2(rng, .2, 3)
        if kind == 'square':
            h = w
        if kind == 'circle':
            w = h = r2(rng, .3, 2.4, 1)
        p = [r2(rng, cx-W/2, cx+W/2), r2(rng, cy-H/2, cy+H/2)]
        if rng.random() < .15:      # along a wall of the room
            k = rng.choice([0, 1])
            p[k] = round((cx, cy)[k] + rng.choice([-1, 1])*((W, H)[k]/2 - rng.choice([0., .02, .05, -.1])), 2)
            w, h = (r2(rng, .02, .2), h) if k == 0 else (w, r2(rng, .02, .2))
            kind = 'rect'
        obs.append({'kind': kind, 'w': w, 'h': h, 'p': p, 'v': [0., 0.]})
    mov = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        kind = rng.choice(['rect', 'circle', 'square', 'turned'])
        w, h = r2(rng, .2, 1.5), r2(rng, .2, 1.5)
        if kind != 'rect' and kind != 'turned':
            h = w
        mov.append({'kind': kind, 'w': w, 'h': h, 'p': [r2(rng, cx-W/2, cx+W/2), r2(rng, cy-H/2, cy+H/2)],
                    'v': [rng.choice([-1, 1])*r2(rng, .1, .8), rng.choice([0., r2(rng, -.8, .8)])], 'th': r2(rng, -1.5, 1.5) if kind == 'turned' else 0.,
                    'from': rng.choice([0., 0., r2(rng, .1, 2.)])})
    return {'W': W, 'H': H, 'c': [cx, cy], 'r': r, 'nc': nc, 'obs': obs, 'mov': mov}


def box(o):
    return [o['p'][0]-o['w']/2, o['p'][1]-o['h']/2, o['p'][0]+o['w']/2, o['p'][1]+o['h']/2]


def half(o):
    """half the sizes of the box around an obstacle"""
    if o['kind'] == 'circle':
        return o['w']/2, o['w']/2
    c, s = abs(math.cos(o.get('th', 0.))), abs(math.sin(o.get('th', 0.)))
    w, h = o['w'], o['w'] if o['kind'] == 'square' else o['h']
    return (w*c+h*s)/2, (w*s+h*c)/2


def shape(o):
    if o['kind'] == 'circle':
        return og.Circle(o['w']/2.)
    if o['kind'] == 'square':
        return og.Square(o['w'])
    return og.Rectangle(width=o['w'], height=o['h'], orientation=o.get('th', 0.))


def free(w, p, d):
    """p is at least d from walls and stationary obstacles (their boxes)"""
    if not (w['c'][0]-w['W']/2+d < p[0] < w['c'][0]+w['W']/2-d and w['c'][1]-w['H']/2+d < p[1] < w['c'][1]+w['H']/2-d):
        return False
    for o in w['obs']:
        b = box(o)
        if b[0]-d < p[0] < b[2]+d and b[1]-d < p[1] < b[3]+d:
            return False
    return True


def make_env(w):
    obs = []
    for o in w['obs']:
        obs.append(og.Obstacle({'position': list(o['p'])}, shape=shape(o)))
    for o in w['mov']:
        obs.append(og.Obstacle({'position': list(o['p'])}, shape=shape(o), simulation={'trajectories': {'velocity': {'time': [o['from']], 'values': [list(o['v'])]}}}))
    env = og.Environment(room={'shape': og.Rectangle(width=w['W'], height=w['H']), 'position': list(w['c'])}, obstacles=obs)
    return env, obs


# ---------------------------------------------------------------------- histories of the scheduler
class Father(object):
    """holds what the stand-in planned, the way the real one hands it out"""
    def __init__(self, prob):
        self.prob = prob
        self.T, self.coeffs, self.guess = [], [], {}

    def get_variables(self, child=None, name=None, **kw):
        from omgtools.basics.spline import BSpline
        v = self.prob.vehicles[0]
        if child is None:
            return {(v.label, 'splines_seg%d' % k): c for k, c in enumerate(self.coeffs or [self.guess['splines_seg%d' % j] for j in range(len(self.guess))])}
        if name.startswith('T'):
            return np.array([[self.T[int(name[1:])]]])
        if not self.coeffs:
            c = self.guess[name]
        else:
            c = self.coeffs[int(name[11:])]
        return [BSpline(v.basis, c[:, k]) for k in range(c.shape[1])]

    def set_variables(self, value, child=None, name=None, **kw):
        self.guess[name] = np.array(value, dtype=float)


BUILT = []


def install():
    """replaces the optimization of the local problems by a record of what they are asked to do"""
    from omgtools.problems.multiframeproblem import MultiFrameProblem
    from omgtools.problems import point2point
    P2P = point2point.FixedTPoint2point

    def init(self):
        self.father = Father(self)
        self.n_rooms = len(self.environment.room)
        self.father.T = [10.]*self.n_rooms
        v = self.vehicles[0]
        v.n_seg = self.n_rooms
        self.given = {'xT': [float(x) for x in v.poseT], 'x0': [float(x) for x in v.prediction['state']],
                      'u0': [float(x) for x in v.prediction['input']],
                      'rooms': [(r['shape'], list(r['position'])) for r in self.environment.room],
                      'obs': [list(r.get('obstacles', [])) for r in self.environment.room]}
        BUILT.append(self)

    def solve(self, current_time, update_time):
        v = self.vehicles[0]
        v.n_seg = self.n_rooms
        at = v.signals['state'][:2, -1] if hasattr(v, 'signals') else np.array(v.prediction['state'][:2])
        pts = [np.array(at)] + [np.array(e) for e in self.ends[:-1]] + [np.array(self.given['xT'][:2])]
        speed = .5
        T = [np.linalg.norm(b-a)/speed + .05 for a, b in zip(pts, pts[1:])]
        n = len(v.basis)
        self.father.coeffs = [np.c_[np.linspace(a[0], b[0], n), np.linspace(a[1], b[1], n)] for a, b in zip(pts, pts[1:])]
        self.father.T = T
        self.father._var_result = True
        self.update_times.append(0.)

    def stop(self, current_time, update_time):
        v = self.vehicles[0]
        return bool(np.linalg.norm(v.signals['state'][:2, -1] - np.array(self.given['xT'][:2])) < 1e-3)

    for C in (MultiFrameProblem, P2P):
        C.init = init
        C.solve = solve
        C.stop_criterium = stop
        C.initialize = lambda self, current_time: None
        C.reinitialize = lambda self, father=None: None
        C.store = lambda self, *a: None
        C.simulate = lambda self, *a: None


def corridor_world(rng):
    """a world in which a vehicle that goes from cell to cell never gets too close to an obstacle:
    the obstacles cover whole cells"""
    r = rng.choice([.1, .2, .3])
    cell = rng.choice([1., 1.25])
    nx, ny = rng.randint(6, 12), rng.randint(6, 12)
    c = rng.choice([[0., 0.], [r2(rng, -4, 4, 1), r2(rng, -4, 4, 1)]])
    W, H = nx*cell, ny*cell
    lo = [c[0]-W/2, c[1]-H/2]
    obs = []
    for _ in range(rng.randint(1, 6)):
        i, j = rng.randrange(nx), rng.randrange(ny)
        a, b = rng.choice([(1, 1), (1, rng.randint(2, 5)), (rng.randint(2, 5), 1), (2, 2)])
        a, b = min(a, nx-i), min(b, ny-j)
        e = rng.choice([.1, .3])      # a bit smaller than the cells
        kind = 'rect' if (a, b) != (1, 1) or rng.random() < .6 else rng.choice(['circle', 'square'])
        obs.append({'kind': kind, 'w': a*cell-e, 'h': b*cell-e, 'p': [lo[0]+(i+a/2.)*cell, lo[1]+(j+b/2.)*cell], 'v': [0., 0.]})
    mov = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        kind = rng.choice(['rect', 'circle', 'square', 'turned'])
        w = r2(rng, .3, 1.)
        h = r2(rng, .3, 1.) if kind in ('rect', 'turned') else w
        v = [rng.choice([-1, 1])*r2(rng, .1, .5), rng.choice([0., r2(rng, -.5, .5)])]
        mov.append({'kind': kind, 'w': w, 'h': h, 'p': [r2(rng, lo[0], lo[0]+W), r2(rng, lo[1], lo[1]+H)], 'v': v,
                    'th': r2(rng, -1.5, 1.5) if kind == 'turned' else 0., 'from': rng.choice([0., 0., r2(rng, .1, 4.)])})
    return {'W': W, 'H': H, 'c': c, 'r': r, 'nc': [nx, ny], 'obs': obs, 'mov': mov, 'cell': cell}
