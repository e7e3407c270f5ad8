"""Global planner grid: blocked cells are exactly the cells a stationary obstacle (grown by the
vehicle's size) covers."""
import math
import numpy as np
import vlib
from vlib import fix
og = None
S = 1000


def setup():
    global og
    og = vlib.import_repo()


def r3(rng, a, b):
    return rng.randint(int(a*S), int(b*S))/float(S)


def rand_shape(rng, og, cw, ch):
    kind = rng.choice(['rect', 'rect', 'thin', 'thin', 'square', 'circle', 'circle', 'rot', 'poly', 'beam', 'cellsize'])
    if kind == 'rect':
        return kind, og.Rectangle(width=r3(rng, 0.1, 3), height=r3(rng, 0.1, 3))
    if kind == 'cellsize':
        return kind, og.Rectangle(width=cw*rng.choice([1, 2, 1, 3]), height=ch*rng.choice([1, .5, .3, 2]))
    if kind == 'thin':
        a, b = r3(rng, 0.02, 0.2), r3(rng, 1, 6)
        return kind, og.Rectangle(width=a, height=b) if rng.random() < 0.5 else og.Rectangle(width=b, height=a)
    if kind == 'square':
        return kind, og.Square(r3(rng, 0.05, 2))
    if kind == 'circle':
        return kind, og.Circle(r3(rng, 0.05, 1.5))
    if kind == 'rot':
        return kind, og.Rectangle(width=r3(rng, 0.1, 3), height=r3(rng, 0.1, 3),
                                  orientation=rng.choice([math.pi/2, math.pi/4, 0.3, -1.1, math.pi/6]))
    if kind == 'poly':
        return kind, og.RegularPolyhedron(r3(rng, 0.2, 1.5), rng.choice([3, 5, 6, 8]), rng.choice([0., 0.4]))
    return kind, og.Beam(width=r3(rng, 0.5, 3), height=r3(rng, 0.1, 0.6), orientation=rng.choice([0., 0.5, math.pi/2]))


def bbox(kind, sh, pos):
    """bounding box of the body, from first principles"""
    if kind == 'circle':
        r = sh.radius
        return [pos[0]-r, pos[1]-r, pos[0]+r, pos[1]+r]
    if kind in ('rect', 'thin', 'square', 'rot', 'cellsize'):
        c, s = abs(math.cos(sh.orientation)), abs(math.sin(sh.orientation))
        hx, hy = 0.5*(sh.width*c + sh.height*s), 0.5*(sh.width*s + sh.height*c)
        return [pos[0]-hx, pos[1]-hy, pos[0]+hx, pos[1]+hy]
    v = np.array(sh.vertices)
    r = sh.radius if kind == 'beam' else 0.
    return [pos[0]+min(v[0])-r, pos[1]+min(v[1])-r, pos[0]+max(v[0])+r, pos[1]+max(v[1])+r]


def job(arg):
    setup()
    import random
    seed, n = arg
    rng = random.Random(seed)
    out = []
    for it in range(n):
        W, H = rng.randint(1, 8), rng.randint(1, 8)
        hw, hh = rng.choice([(250, 250), (500, 200), (200, 450), (300, 301), (500, 500)])
        x0, y0 = rng.randint(-3000, 3000), rng.randint(-3000, 3000)
        if rng.random() < .3:
            x0, y0 = 0, 0
        cw, ch = 2.*hw/S, 2.*hh/S
        pos = (x0/1000. + W*cw/2, y0/1000. + H*ch/2)
        obs, boxes, desc = [], [], []
        opt = rng.choice([{}, {}, {'veh_size': r3(rng, .05, .4)}, {'veh_size': [r3(rng, .05, .4)]},
                          {'veh_size': [r3(rng, .05, .4), r3(rng, .05, .4)]}])
        vs = opt.get('veh_size', [0., 0.])
        vs = list(vs) if isinstance(vs, list) else [vs]
        vs = vs*2 if len(vs) == 1 else vs
        for _ in range(rng.randint(0, 4)):
            kind, sh = rand_shape(rng, og, cw, ch)
            p = [r3(rng, x0/1000.-.5, x0/1000.+W*cw+.5), r3(rng, y0/1000.-.5, y0/1000.+H*ch+.5)]
            if rng.random() < .3:    # centred on a cell or on a cell edge
                p = [x0/1000. + rng.randint(0, 2*W)*cw/2, y0/1000. + rng.randint(0, 2*H)*ch/2]
            sim = {}
            moving = False
            m = rng.random()
            if m < .15:
                sim = {'trajectories': {'velocity': {'time': [0., 2.], 'values': [[0., 0.], [0.3, 0.]]}}}
                moving = True
            elif m < .25:
                sim = {'trajectories': {'velocity': {'time': [0.], 'values': [[0.2, 0.1]]}}}
                moving = True
            elif m < .4:
                sim = {'trajectories': {'velocity': {'time': [0., 1.], 'values': [[0., 0.], [0., 0.]]}}}
            obs.append(og.Obstacle({'position': list(p)}, shape=sh, simulation=sim))
            desc.append([kind, p, bool(moving)])
            if not moving:
                b = bbox(kind, sh, p)
                boxes.append([fix(b[0]-vs[0], S), fix(b[1]-vs[1], S), fix(b[2]+vs[0], S), fix(b[3]+vs[1], S)])
        rec = {'kind': 'occ', 'W': W, 'H': H, 'hw': hw, 'hh': hh, 'x0': x0, 'y0': y0, 'boxes': boxes,
               'tol': 3, 'case': {'W': W, 'H': H, 'cw': cw, 'ch': ch, 'room': pos, 'obstacles': desc, 'veh_size': vs}}
        try:
            env = og.Environment(room={'shape': og.Rectangle(width=W*cw, height=H*ch), 'position': list(pos)},
                                 obstacles=obs)
            with vlib.quiet():
                pl = og.AStarPlanner(env, [W, H], list(pos), list(pos), opt)
            rec['blocked'] = [[i, j] for i in range(W) for j in range(H) if not pl.grid.free([i, j])]
        except Exception as e:
            rec['exc'] = repr(e)
        out.append(rec)
    return out


def run(ctx):
    setup()
    n = 120 if ctx.quick else 1500
    recs = []
    for st, r in vlib.parallel(job, [(ctx.seed*1000 + k, n) for k in range(8)], 8, 800):
        if st != 'ok':
            raise vlib.MachineryError(r)
        recs += r
    for r in recs:
        if 'exc' in r:
            ctx.violation('occupied.planner-raises', r['exc'], r['case'])
    good = [r for r in recs if 'exc' not in r]
    ctx.judge('GridTrace', good, name='GridOcc', shards=8)
    ctx.evals = len(recs)
    ctx.sample(good[0])
    ctx.sample(good[1]['case'])
    ctx.cov.update({'environments': len(recs), 'obstacle_boxes': sum(len(r['boxes']) for r in recs),
                    'cells': sum(r['W']*r['H'] for r in recs),
                    'rule': 'random rooms and grids with up to 4 obstacles of every 2D shape, stationary and '
                            'moving, aligned with and off the cell borders, with and without a vehicle size'})
    ctx.assumptions += ['cells are at least 1 mm apart from an obstacle border before a verdict is forced',
                        'obstacles keep orientation 0 (their shapes may be rotated)']


if __name__ == '__main__':
    vlib.main('C07', run)
