"""Safety of plans: whatever the optimizer accepts keeps clear of everything, stays in the room and within the limits."""
import math
import os
import random
import numpy as np
import vlib
from vlib import fix, fixl
import rh
og = None
S6, S4 = 1000000, 10000


def setup():
    global og
    og = vlib.import_repo()
    rh.setup()


# ---------------------------------------------------------------------------------------------
# shapes: the tool's object, what the specification is told, and corners for finding directions
def rot2(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def rot3(rpy):
    r, p, y = rpy
    X = np.array([[1, 0, 0], [0, math.cos(r), -math.sin(r)], [0, math.sin(r), math.cos(r)]])
    Y = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    Z = np.array([[math.cos(y), -math.sin(y), 0], [math.sin(y), math.cos(y), 0], [0, 0, 1]])
    return Z.dot(Y).dot(X)


class Sh(object):
    def __init__(self, kind, a, b=0., c=0., n=0, ang=None):
        self.kind, self.a, self.b, self.c, self.n = kind, a, b, c, n
        self.dim = 3 if kind in ('sphere', 'cuboid', 'prisma', 'plate') else 2
        self.ang = ang if ang is not None else ([0., 0., 0.] if self.dim == 3 else [0.])
        box = [(a/2, b/2), (a/2, -b/2), (-a/2, -b/2), (-a/2, b/2)]
        gon = [(a*math.cos(math.pi/2-(2*k+1)*math.pi/n), a*math.sin(math.pi/2-(2*k+1)*math.pi/n)) for k in range(n)] if n else []
        L = {'circle': [(0, 0)], 'cylinder': [(0, 0)], 'sphere': [(0, 0, 0)], 'beam': [(a/2, 0), (-a/2, 0)], 'rect': box, 'reg': gon,
             'cuboid': [q + (z,) for z in (-c/2, c/2) for q in box], 'prisma': [q + (z,) for z in (-c/2, c/2) for q in gon],
             'plate': [q + (0.,) for q in box]}[kind]
        R = rot3(self.ang) if self.dim == 3 else rot2(self.ang[0])
        self.v = np.array([R.dot(np.array(q, float)) for q in L])
        self.rad = {'circle': a, 'cylinder': a, 'sphere': a, 'beam': b/2, 'plate': c/2}.get(kind, 1e-3)
        self.ext = np.linalg.norm(self.v, axis=1).max() + self.rad

    def spec(self):
        return {'kind': self.kind, 'a': fix(self.a, S4), 'b': fix(self.b, S4), 'c': fix(self.c, S4), 'n': self.n, 'ang': fixl(self.ang, S6)}

    def make(self):
        k, a, b, c = self.kind, self.a, self.b, self.c
        if k == 'circle':
            return og.Circle(a)
        if k == 'cylinder':
            return og.Cylinder(a)
        if k == 'rect':
            return og.Square(a, orientation=self.ang[0]) if a == b else og.Rectangle(width=a, height=b, orientation=self.ang[0])
        if k == 'reg':
            return og.RegularPolyhedron(a, self.n, orientation=self.ang[0])
        if k == 'beam':
            return og.Beam(width=a, height=b, orientation=self.ang[0])
        if k == 'sphere':
            return og.Sphere(a)
        if k == 'cuboid':
            return og.Cuboid(a, b, c, orientation=list(self.ang))
        if k == 'prisma':
            return og.RegularPrisma(a, c, self.n, orientation=list(self.ang))
        return og.Plate(og.Rectangle(a, b), c, orientation=list(self.ang))

    def at(self, p, th=0.):
        p = np.asarray(p, float)
        if self.dim == 3 or len(p) == 2:
            return p + (self.v if (self.dim == 3 or not th) else self.v.dot(rot2(th).T))
        return np.c_[p[:2] + self.v, np.full(len(self.v), p[2])]


def rnd(rng, lo, hi, q=3):
    return round(rng.uniform(lo, hi), q)


def shape2(rng, small, kinds=('circle', 'rect', 'reg', 'beam')):
    k = rng.choice(kinds)
    f = .5 if small else 1.
    ang = [rng.choice([0., 0., rnd(rng, -3, 3)])]
    if k == 'circle':
        return Sh(k, rnd(rng, .1, .5*f))
    if k == 'rect':
        a = rnd(rng, .2, 1.*f)
        return Sh(k, a, rng.choice([a, rnd(rng, .15, 1.*f)]), ang=ang)
    if k == 'reg':
        return Sh(k, rnd(rng, .15, .6*f), n=rng.randint(3, 6), ang=ang)
    return Sh(k, rnd(rng, .4, 1.4*f), rnd(rng, .1, .3), ang=ang)


def shape3(rng, small, kinds=('sphere', 'cuboid', 'prisma', 'plate')):
    k = rng.choice(kinds)
    f = .5 if small else 1.
    ang = rng.choice([[0., 0., 0.], [rnd(rng, -1.5, 1.5), rnd(rng, -1.5, 1.5), rnd(rng, -3, 3)]])
    if k == 'sphere':
        return Sh(k, rnd(rng, .1, .5*f))
    if k == 'cuboid':
        return Sh(k, rnd(rng, .2, 1.*f), rnd(rng, .2, 1.*f), rnd(rng, .2, 1.*f), ang=ang)
    if k == 'prisma':
        return Sh(k, rnd(rng, .15, .6*f), c=rnd(rng, .2, 1.*f), n=rng.randint(3, 5), ang=ang)
    return Sh(k, rnd(rng, .3, 1.2*f), rnd(rng, .3, 1.2*f), rnd(rng, .05, .3), ang=ang)


def sepdir(A, B):
    """direction of the shortest vector from conv(A) to conv(B)"""
    from scipy.optimize import nnls
    D = (B[None, :, :] - A[:, None, :]).reshape(-1, A.shape[1])
    M = np.vstack((D.T, np.ones(len(D))))
    x, _ = nnls(M, np.r_[np.zeros(A.shape[1]), 1.])
    n = D.T.dot(x)
    s = x.sum()
    n = n/s if s > 0 else n
    if np.linalg.norm(n) < 1e-6:
        n = B.mean(0) - A.mean(0) + 1e-9
    return n/np.linalg.norm(n)


def idir(n):
    q = [int(round(v*S4)) for v in n]
    return q


# ---------------------------------------------------------------------------------------------
class Adversary(object):
    """an optimizer that satisfies the very same constraints, but wants to go somewhere else"""

    def __init__(self, problem, rng, targets, free, alpha=0., lm=False):
        from casadi import MX, nlpsol, dot, vertcat
        self.problem, self.rng, self.targets, self.free = problem, rng, targets, free
        self.real = problem.problem
        problem.problem = self
        f = self.real.oracle()
        nx, npar = f.size1_in(0), f.size1_in(1)
        x, p = MX.sym('x', nx), MX.sym('p', npar)
        w, q, x0 = MX.sym('w', nx), MX.sym('q', nx), MX.sym('r', nx)
        g = f(x, p)[1]
        obj = alpha*f(x, p)[0] + dot(w, x) + dot(q, (x-x0)**2)
        opt = {'print_time': 0, 'ipopt.print_level': 0, 'ipopt.tol': 1e-5, 'ipopt.max_iter': 400, 'ipopt.max_cpu_time': 25.,
               'ipopt.constr_viol_tol': 1e-5}
        if lm:
            opt['ipopt.hessian_approximation'] = 'limited-memory'
        self.solver = nlpsol('adv', 'ipopt', {'x': x, 'p': vertcat(p, w, q, x0), 'f': obj, 'g': g}, opt)
        self.nx = nx
        self.status = None
        self.lam = 0

    def mask(self, label, name, val):
        v = self.problem.father._var_struct(0.)
        v[label, name] = val
        return np.array(v.cat, float).ravel()

    def __call__(self, x0=None, p=None, lbg=None, ubg=None, **kw):
        from casadi import vertcat
        rng = self.rng
        w, q, ref = np.zeros(self.nx), np.full(self.nx, 1e-4), np.zeros(self.nx)
        x0v = np.array(self.problem.father._var_struct(x0).cat, float).ravel()
        ref += x0v
        for v in self.problem.vehicles:
            nb, ns = len(v.basis), v.n_spl
            mode = rng.choice(['pull', 'push', 'noise'])
            if mode == 'pull' and self.targets and ns == len(self.targets[0]):
                tgt = np.array(rng.choice(self.targets)) + np.array([rng.gauss(0, .3) for _ in range(ns)])
                q += self.mask(v.label, 'splines_seg0', np.ones((nb, ns)))*.3
                ref += self.mask(v.label, 'splines_seg0', np.tile(tgt, (nb, 1)) - x0v_part(self.problem, v, x0))
            elif mode == 'push':
                d = np.array([rng.gauss(0, 1) for _ in range(ns)])
                w += self.mask(v.label, 'splines_seg0', np.tile(d, (nb, 1)))
            else:
                w += self.mask(v.label, 'splines_seg0', np.array([[rng.gauss(0, 1) for _ in range(ns)] for _ in range(nb)]))
        if self.free:
            w += self.mask(self.problem.label, 'T', rng.choice([.3, 1., 3.]))
            q += self.mask(self.problem.label, 'T', .01)
        res = self.solver(x0=x0, p=vertcat(p.cat if hasattr(p, 'cat') else p, w, q, ref), lbg=lbg, ubg=ubg)
        self.status = self.solver.stats()['return_status']
        return res

    def stats(self):
        return {'return_status': self.status}


def x0v_part(problem, v, x0):
    return np.array(problem.father._var_struct(x0)[v.label, 'splines_seg0'], float)


class Watch(object):
    """the tool's own optimizer; remembers what it said"""
    def __init__(self, problem):
        self.real = problem.problem
        problem.problem = self
        self.status = None

    def __call__(self, **kw):
        r = self.real(**kw)
        self.status = self.real.stats()['return_status']
        return r

    def stats(self):
        return {'return_status': self.status}


# ---------------------------------------------------------------------------------------------
HEADING = ('HolonomicOrient', 'Dubins', 'AGV', 'Bicycle')


def make_vehicle(kind, rng, form):
    """tool's vehicle, its shape, description of its limits"""
    lim = {'box': [], 'slope': [], 'norm': []}
    opt = {'ideal_prediction': True}
    if rng.random() < .25 and kind not in ('Quadrotor3D',):
        opt.update({'safety_distance': rnd(rng, .02, .2), 'safety_weight': 10.})
    B = lambda name, col, lo, hi: lim['box'].append({'name': name, 'col': col, 'lo': lo, 'hi': hi})
    Sl = lambda name, col, lo, hi: lim['slope'].append({'name': name, 'col': col, 'lo': lo, 'hi': hi})
    lo = lambda a, b: -rnd(rng, a, b)
    hi = lambda a, b: rnd(rng, a, b)
    if kind in ('Holonomic', 'HolonomicOrient', 'Holonomic3D'):
        nd = 3 if kind == 'Holonomic3D' else 2
        sh = shape3(rng, True) if nd == 3 else shape2(rng, True)
        if rng.random() < .4:
            opt['syslimit'] = 'norm_2'
            import sys
            opt['syslimit'] = sys.intern('norm_2')
            b = {'vmax': hi(.3, .9), 'amax': hi(.5, 1.5)}
            lim['norm'].append({'cols': list(range(nd)), 'max': b['vmax'], 'dmax': b['amax'], 'name': 'speed', 'dname': 'acceleration'})
        elif kind == 'Holonomic' and rng.random() < .5:
            b = {'vxmin': lo(.3, .8), 'vxmax': hi(.3, .8), 'vymin': lo(.3, .8), 'vymax': hi(.3, .8),
                 'axmin': lo(.5, 1.5), 'axmax': hi(.5, 1.5), 'aymin': lo(.5, 1.5), 'aymax': hi(.5, 1.5)}
            for c, n in enumerate('xy'):
                B('velocity', c, b['v%smin' % n], b['v%smax' % n])
                Sl('acceleration', c, b['a%smin' % n], b['a%smax' % n])
        else:
            b = {'vmin': lo(.3, .8), 'vmax': hi(.3, .8), 'amin': lo(.5, 1.5), 'amax': hi(.5, 1.5)}
            for c in range(nd):
                B('velocity', c, b['vmin'], b['vmax'])
                Sl('acceleration', c, b['amin'], b['amax'])
        if kind == 'HolonomicOrient':
            b.update({'wmin': lo(.2, .8), 'wmax': hi(.2, .8)})
            B('turning', 2, b['wmin'], b['wmax'])
        v = getattr(og, kind)(sh.make(), options=opt, bounds=b)
    elif kind == 'Dubins':
        sh = shape2(rng, True, ('circle', 'rect', 'circle'))
        b = {'vmax': hi(.3, .8), 'wmin': lo(.3, .8), 'wmax': hi(.3, .8)}
        opt['substitution'] = rng.random() < .3
        opt['exact_substitution'] = opt['substitution'] and rng.random() < .5
        v = og.Dubins(sh.make(), options=opt, bounds=b)
        B('velocity', 0, 0., b['vmax'])
        B('turning', 1, b['wmin'], b['wmax'])
    elif kind in ('AGV', 'Bicycle'):
        L = rnd(rng, .3, .6)
        b = {'vmax': hi(.3, .8), 'amax': hi(.6, 1.5), 'dmin': lo(.35, .8), 'dmax': hi(.35, .8), 'ddmin': lo(.6, 1.2), 'ddmax': hi(.6, 1.2)}
        v = getattr(og, kind)(length=L, options=opt, bounds=b)
        s = v.shapes[0]
        sh = Sh('rect', s.width, s.height) if hasattr(s, 'width') else Sh('circle', s.radius)
        B('velocity', 0, 0., b['vmax'])
        Sl('acceleration', 0, -100., b['amax'])
        B('steering', 2, b['dmin'], b['dmax'])
        B('steering rate', 1, b['ddmin'], b['ddmax'])
    elif kind == 'Quadrotor':
        r = hi(.1, .3)
        b = {'u1min': hi(1., 6.), 'u1max': hi(11., 15.), 'u2min': lo(2., 8.), 'u2max': hi(2., 8.)}
        v = og.Quadrotor(r, options=opt, bounds=b)
        sh = Sh('circle', r)
        B('thrust', 0, b['u1min'], b['u1max'])
        B('pitch rate', 1, b['u2min'], b['u2max'])
    else:
        r = hi(.1, .3)
        b = {'u1min': hi(1., 6.), 'u1max': hi(11., 15.), 'u2min': lo(1., 3.), 'u2max': hi(1., 3.), 'u3min': lo(1., 3.), 'u3max': hi(1., 3.),
             'phimin': lo(.2, .6), 'phimax': hi(.2, .6), 'thetamin': lo(.2, .6), 'thetamax': hi(.2, .6)}
        if kind == 'Quadrotor3D':
            opt['exact_substitution'] = rng.random() < .5
            b.update({'u1min': hi(1., 4.), 'u1max': hi(13., 16.)})
        v = getattr(og, kind)(r, options=opt, bounds=b)
        sh = Sh('sphere', r)
        B('thrust', 0, b['u1min'], b['u1max'])
        if kind == 'Quadrotor3D':
            B('roll rate', 1, b['u2min'], b['u2max'])
        B('pitch rate', 2, b['u3min'], b['u3max'])
        B('roll', 3, b['phimin'], b['phimax'])
        B('pitch', 4, b['thetamin'], b['thetamax'])
    return v, sh, lim


def limrows(kind, tr):
    u = np.asarray(tr['input'], float)
    s = np.asarray(tr['state'], float)
    if kind in ('AGV', 'Bicycle'):
        return np.vstack((u, s[3:4])).T
    if kind in ('SimpleQuadrotor3D', 'Quadrotor3D'):
        return np.vstack((u[:3], s[6:8])).T
    return u.T


def limrec(kind, lim, tr, h, case):
    R = limrows(kind, tr)
    # next to half a turn the tangent of half the heading blows up the optimizer's tolerance
    off = [False]*len(R)
    if kind in HEADING:
        th = np.asarray(tr['pose'], float)[2]
        off = [bool(abs(q) > 3.) for q in th]
    slow = [bool(a or q) for a, q in zip(np.abs(R[:, 0]) < .05, off)] if kind in ('AGV', 'Bicycle') else off
    # the last sample of a trajectory at rest, where a heading or steering angle is not defined
    f = lambda d: dict(d, lo=fix(d['lo'], S4), hi=fix(d['hi'], S4), col=d['col']+1,
                       off=slow if d['name'].startswith('steering') else off)
    cols = [b['col'] for b in lim['box']]
    return {'type': 'lim', 'rows': [fixl(r, S4) for r in R[:, :]], 'h': fix(h, S4),
            'box': [f(b) for b in lim['box']], 'slope': [f(b) for b in lim['slope']],
            'norm': [{'cols': [c+1 for c in b['cols']], 'max': fix(b['max'], S4), 'dmax': fix(b['dmax'], S4), 'name': b['name'],
                      'dname': b['dname']} for b in lim['norm']], 'case': case}


class World(object):
    def __init__(self, rng, dim, fixed, horizon, n_obs, cyl=True):
        self.dim = dim
        if dim == 2:
            k = rng.choice(['rect', 'rect', 'turned', 'reg'])
            if k == 'reg':
                self.room = Sh('reg', rnd(rng, 2.6, 3.6), n=rng.randint(4, 7), ang=[rng.choice([0., rnd(rng, -1, 1)])])
            else:
                self.room = Sh('rect', rnd(rng, 3.5, 5.), rnd(rng, 3.6, 5.), ang=[0. if k == 'rect' else rnd(rng, -1, 1)])
        else:
            self.room = Sh('cuboid', rnd(rng, 3.5, 5.), rnd(rng, 3.6, 5.), rnd(rng, 3.5, 5.))
        self.at = [rnd(rng, -2, 2) for _ in range(dim)] if rng.random() < .7 else [0.]*dim
        self.obs = []
        for _ in range(n_obs):
            if dim == 3:
                sh = Sh('cylinder', rnd(rng, .1, .5)) if (cyl and rng.random() < .2) else shape3(rng, False)
            else:
                sh = shape2(rng, False)
            d = sh.dim
            o = {'sh': sh, 'p': [self.at[k] + rnd(rng, -1.2, 1.2) for k in range(d)], 'v': [0.]*d, 'a': [0.]*d, 'th': 0., 'om': 0.}
            m = rng.random()
            if m < .5:
                o['v'] = [rnd(rng, -.12, .12) for _ in range(d)]
                if rng.random() < .5:
                    o['a'] = [rnd(rng, -.02, .02) for _ in range(d)]
            if dim == 2 and rng.random() < .35:
                o['th'] = rnd(rng, -3, 3)
            if dim == 2 and fixed and rng.random() < .3:
                o['om'] = rnd(rng, -.5, .5) or .1
            self.obs.append(o)

    def corners(self):
        return self.room.at(self.at)

    def free(self, p, ext):
        p = np.asarray(p, float)
        for o in self.obs:
            q = np.array(o['p'])
            if np.linalg.norm(p[:len(q)] - q) < o['sh'].ext + ext + .05:
                return False
        if self.dim == 3:
            return all(abs(p[k]-self.at[k]) + ext < s/2 - .05 for k, s in enumerate((self.room.a, self.room.b, self.room.c)))
        w = self.corners()
        for k in range(len(w)):
            a, b = w[k], w[(k+1) % len(w)]
            n = np.array([a[1]-b[1], b[0]-a[0]])/np.linalg.norm(b-a)
            if n.dot(p-a) + ext > -.05:
                return False
        return True

    def spot(self, rng, ext, taken=()):
        for _ in range(300):
            p = [self.at[k] + rnd(rng, -2.3, 2.3) for k in range(self.dim)]
            if self.free(p, ext) and all(np.linalg.norm(np.array(p)-np.array(t)) > 2*ext + .2 for t in taken):
                return p
        return None

    def make(self, horizon):
        env = og.Environment(room={'shape': self.room.make(), 'position': list(self.at)})
        for o in self.obs:
            ini = {'position': list(o['p'])}
            if any(o['v']):
                ini['velocity'] = list(o['v'])
            if any(o['a']):
                ini['acceleration'] = list(o['a'])
            if o['sh'].dim == 2 and self.dim == 2:
                ini['orientation'] = np.array([o['th']])
                ini['angular_velocity'] = np.array([o['om']])
            env.add_obstacle(og.Obstacle(ini, shape=o['sh'].make(), options={'horizon_time': horizon} if o['om'] else {}))
        return env

    def spec(self):
        return [{'shape': o['sh'].spec(), 'p': fixl(o['p'], S4), 'v': fixl(o['v'], S4), 'acc': fixl(o['a'], S4), 'th': fix(o['th'], S6),
                 'om': fix(o['om'], S6), 'slack': fix(.0165*o['sh'].ext, S4) if o['om'] else 0} for o in self.obs]

    def where(self, o, t):
        q = np.array(o['p']) + np.array(o['v'])*t + .5*np.array(o['a'])*t*t
        return o['sh'].at(q, o['th'] + o['om']*t)


def posth(kind, pose, dim):
    """coordinates and heading per sample"""
    p = np.asarray(pose, float)
    th = p[2] if kind in HEADING else np.zeros(p.shape[1])
    return p[:dim].T, th


def judge_records(w, vehicles, kinds, shapes, lims, t_now, h, case, stride):
    """records about the plans now published; t_now: time since the obstacles were where they were announced"""
    out = []
    tracks = []
    for v, kind, sh, lim in zip(vehicles, kinds, shapes, lims):
        tr = v.trajectories
        P, TH = posth(kind, tr['pose'], w.dim)
        n = P.shape[0]
        idx = list(range(0, n, stride))
        if idx[-1] != n-1:
            idx.append(n-1)
        tracks.append((P, TH))
        pose, ths, ts, dirs = [], [], [], []
        for k in idx:
            A = sh.at(P[k], TH[k])
            t = t_now + k*h
            dd = []
            for o in w.obs:
                Bv = w.where(o, t)
                if Bv.shape[1] < A.shape[1]:
                    dd.append(idir(np.r_[sepdir(A[:, :2], Bv), 0.]))
                else:
                    dd.append(idir(sepdir(A, Bv)))
            pose.append([fixl(P[k], S4)]); ths.append([fix(TH[k], S6)]); ts.append(int(round(t*100))); dirs.append([dd])
        if w.obs:
            out.append({'type': 'safe', 'dim': w.dim, 'shapes': [sh.spec()], 'obs': w.spec(), 't': ts, 'pose': pose, 'th': ths, 'dir': dirs,
                        'tol': 50, 'case': case})
        if v.options['room_constraints']:
            if w.dim == 2:
                c = w.corners()
                ln = [fix(np.linalg.norm(c[(k+1) % len(c)]-c[k]), S4) for k in range(len(c))]
            else:
                ln = []
            out.append({'type': 'room', 'dim': w.dim, 'shapes': [sh.spec()], 'room': w.room.spec(), 'at': fixl(w.at, S4), 'len': ln,
                        'pose': pose, 'th': ths, 'tol': 50, 'case': case})
        out.append(limrec(kind, lim, tr, h, case))
    for a in range(len(vehicles)):
        for b in range(a+1, len(vehicles)):
            (Pa, Ta), (Pb, Tb) = tracks[a], tracks[b]
            n = min(len(Pa), len(Pb))
            idx = range(0, n, stride)
            out.append({'type': 'pair', 'shapes': [shapes[a].spec(), shapes[b].spec()],
                        'pose': [[fixl(Pa[k], S4), fixl(Pb[k], S4)] for k in idx], 'th': [[fix(Ta[k], S6), fix(Tb[k], S6)] for k in idx],
                        'dir': [idir(sepdir(shapes[a].at(Pa[k], Ta[k]), shapes[b].at(Pb[k], Tb[k]))) for k in idx], 'tol': 50, 'case': case})
    return out


def endrec(kind, v, goal, free, case):
    """where and how the plan ends (the end of the horizon, from the coefficients of the plan itself)"""
    kn = v.trajectories_kn
    s, u = np.asarray(kn['state'], float)[:, -1], np.asarray(kn['input'], float)[:, -1]
    name, want, got = [], [], []
    def add(n, w, g):
        name.append(n); want.append(fix(w, S4)); got.append(fix(g, S4))
    if free:
        for k in range(len(goal)):
            add('goal', goal[k], s[k])
    if kind in ('Holonomic', 'Holonomic3D', 'HolonomicOrient'):
        for q in u:
            add('rest', 0., q)
    elif kind in ('Dubins', 'AGV', 'Bicycle'):
        pass
    elif kind == 'Quadrotor':
        for q in s[2:4]:
            add('rest', 0., q)
        add('hover', 9.81, u[0])
    elif kind in ('SimpleQuadrotor3D', 'Quadrotor3D'):
        # the approximate substitution only ties positions together (to a millimetre)
        for q in s[3:6] if not (kind == 'Quadrotor3D' and not v.options['exact_substitution']) else []:
            add('rest', 0., q)
        add('hover', 9.81, u[0])
    return {'type': 'end', 'name': name, 'want': want, 'got': got, 'tol': 60, 'case': case}


PREC = {'Holonomic': 'fast'}


def job(args):
    seed, kind, free, adv, steps = args
    setup()
    rng = random.Random(seed)
    out, stat = [], []
    with vlib.quiet():
        nveh = 2 if kind == 'Pair' else 1
        vk = 'Holonomic' if kind == 'Pair' else kind
        dim = 3 if vk in ('Holonomic3D', 'SimpleQuadrotor3D', 'Quadrotor3D') else 2
        wheels = vk in ('Dubins', 'AGV', 'Bicycle', 'Quadrotor3D')
        ki = rng.choice([5, 6]) if wheels else rng.choice([5, 6, 10])
        h = rng.choice([.05, .1])
        knot = rng.choice([.5, .6, .8, 1.])*(10./ki)
        horizon = round(knot*ki, 4)
        vs, shs, lims = zip(*[make_vehicle(vk, rng, kind) for _ in range(nveh)])
        w = World(rng, dim, not free, horizon, 1 if wheels else rng.randint(1, 2 if dim == 3 else 3))
        taken, ok = [], True
        for v, sh in zip(vs, shs):
            s = w.spot(rng, sh.ext, taken)
            if s is None:
                return [], ['nospot']
            taken.append(s)
        goals = []
        for v, sh in zip(vs, shs):
            g = w.spot(rng, sh.ext, goals)
            if g is None:
                return [], ['nospot']
            goals.append(g)
        full = []
        for v, s, g in zip(vs, taken, goals):
            v.define_knots(knot_intervals=ki)
            if vk in ('Dubins', 'AGV', 'Bicycle', 'HolonomicOrient'):
                th0 = rnd(rng, -2., 2.)
                th1 = th0 + rnd(rng, -1., 1.) if vk != 'Dubins' else math.atan2(g[1]-s[1], g[0]-s[0])
                th1 = max(-2.4, min(2.4, th1))
                st = list(s) + [th0] + ([0.] if vk in ('AGV', 'Bicycle') else [])
                gl = list(g) + [th1]
            else:
                st, gl = list(s) + ([0.]*5 if dim == 3 and vk != 'Holonomic3D' else []), list(g)
            full.append(gl)
            v.set_initial_conditions(np.array(st, float))
            v.set_terminal_conditions(np.array(gl, float))
        env = w.make(horizon)
        lm = {'ipopt.hessian_approximation': 'limited-memory'} if wheels else {}
        popt = {'verbose': 0, 'solver_options': {'ipopt': {'ipopt.tol': 1e-5, 'ipopt.max_cpu_time': 25., 'ipopt.max_iter': 400, **lm}},
                'inter_vehicle_avoidance': True}
        if not free:
            popt['horizon_time'] = horizon
        problem = og.Point2point(list(vs) if nveh > 1 else vs[0], env, options=popt, freeT=free)
        problem.init()
        for v in vs:
            v.problem = problem
        tgt = [list(o['p']) for o in w.obs if len(o['p']) == dim] + [list(w.corners()[0])] if dim == 2 else [list(o['p']) for o in w.obs if len(o['p']) == 3]
        if adv:
            sol = Adversary(problem, rng, tgt, free, 0. if vk in ('Holonomic', 'Holonomic3D') else rng.choice([.1, 1.]), wheels)
        else:
            sol = Watch(problem)
        upd = h*rng.randint(1, 8)
        sim = og.Simulator(problem, sample_time=h, update_time=upd)
        t = 0.
        case = {'key': '%s/%s' % (kind, 'free' if free else 'fixed'), 'seed': seed, 'adv': adv}
        for k in range(steps):
            sim.step(upd)
            stat.append(sol.status)
            if sol.status != 'Solve_Succeeded':
                break
            c = dict(case, step=k)
            n = np.asarray(vs[0].trajectories['pose']).shape[1]
            out += judge_records(w, vs, [vk]*nveh, shs, lims, t, h, c, max(1, n//24))
            for v, g in zip(vs, full):
                out.append(endrec(vk, v, g, free, c))
            t = round(t + upd, 6)
            if free and float(np.ravel(problem.father.get_variables(problem, 'T'))[0]) < 3*upd:
                break
    return out, stat


DESIGN = '''SPECIFICATION Spec
CONSTANTS W=%d V=2 H=%d U=2 EndAtRest=TRUE ObsMoves=TRUE
INVARIANTS Safe Solvable
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    setup()
    from collections import Counter
    ctx.design('PlanModel', DESIGN % ((7, 4) if ctx.quick else (9, 6)), workers=8)
    rng = ctx.rng
    jobs = []
    def add(kind, n, free=None, steps=3):
        for _ in range(n):
            fr = (rng.random() < .35) if free is None else free
            jobs.append((rng.randrange(10**9), kind, fr, rng.random() < .65, steps))
    f = 1 if ctx.quick else 8
    add('Holonomic', 16*f)
    add('HolonomicOrient', 6*f)
    add('Holonomic3D', 8*f)
    add('Dubins', 8*f)
    add('AGV', 4*f)
    add('Bicycle', 4*f)
    add('Quadrotor', 6*f)
    add('SimpleQuadrotor3D', 4*f)
    add('Quadrotor3D', 4*f)
    add('Pair', 5*f, None, 2)
    recs, stats = [], {}
    import time
    res = vlib.parallel(timed, jobs, 8, 150)
    for (j, (st, r)) in zip(jobs, res):
        k = stats.setdefault('%s/%s/%s' % (j[1], 'free' if j[2] else 'fixed', 'adv' if j[3] else 'own'), Counter())
        if st == 'timeout':
            k['timeout'] += 1
            continue
        if st != 'ok':
            ctx.violation('plan.raises', str(r)[-1500:], {'key': 'worker/%s' % j[1], 'job': list(j)})
            continue
        dt, (o, s) = r
        k['secs'] += int(dt)
        recs += o
        for q in s:
            k[q] += 1
    for k in sorted(stats):
        ctx.log(k, dict(stats[k]))
    ctx.cov['optimizer_answers'] = {k: dict(v) for k, v in stats.items()}
    ctx.judge('PlanSafety', recs, shards=8)
    ctx.evals = len(recs)
    if recs:
        ctx.sample({k: recs[0][k] for k in recs[0] if k not in ('dir',)})


def timed(j):
    import time
    t = time.time()
    r = job(j)
    return time.time()-t, r


if __name__ == '__main__':
    vlib.main('C14', run)
