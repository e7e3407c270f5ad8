"""Geometry: what shapes cover, and whether they touch."""
import math
import random
import numpy as np
import vlib
from vlib import fix, fixl
import C14

og = None
S4, S6 = 10**4, 10**6
U = .1                    # a unit of length of the exact families
DESIGN = '''SPECIFICATION Spec
CONSTANTS M=%d R=%d
INVARIANTS Apart Along Larger Turn Any Segs
CHECK_DEADLOCK FALSE
'''

BOUNCE = '''SPECIFICATION Spec
CONSTANTS N=%d V=%d D=%d
INVARIANTS Stays
PROPERTIES Speed Straight Back In
CHECK_DEADLOCK FALSE
'''


def setup():
    global og
    if og is None:
        C14.setup()
        og = C14.og


def convex(rng, R=40, n=None):
    """a convex polygon on whole numbers, clockwise, without corners in line"""
    from scipy.spatial import ConvexHull
    while True:
        pts = np.array([[rng.randint(-R, R), rng.randint(-R, R)] for _ in range(n or rng.randint(3, 7))])
        try:
            h = pts[ConvexHull(pts).vertices][::-1]
        except Exception:
            continue
        e = np.roll(h, -1, 0) - h
        c = e[:, 0]*np.roll(e, -1, 0)[:, 1] - e[:, 1]*np.roll(e, -1, 0)[:, 0]
        if len(h) >= 3 and (c < 0).all():
            return h.tolist()


def obstacle(shape, p, **kw):
    with vlib.quiet():
        o = og.Obstacle({'position': [float(x) for x in p]}, shape=shape, **kw)
    return o


def rint(rng, a):
    return rng.randint(-a, a)


def f_shape(rng):
    sh = C14.shape2(rng, False, ('circle', 'rect', 'reg', 'rect', 'reg', 'beam')) if rng.random() < .6 else C14.shape3(rng, False)
    s = sh.make()
    box = [fixl(l, S4) for l in s.get_canvas_limits()]
    pos = [C14.rnd(rng, -5, 5) for _ in range(2)]
    hyp, drawn = [], []
    if sh.kind in ('rect', 'reg'):
        H = s.get_hyperplanes(position=pos)
        hyp = [{'a': fixl(H[k]['a'], S4), 'b': fix(H[k]['b'], S4)} for k in sorted(H)]
    nd = sh.dim
    pose = [C14.rnd(rng, -5, 5) for _ in range(nd)] + [C14.rnd(rng, -3, 3) for _ in range(1 if nd == 2 else 3)]
    surf, _ = s.draw(np.array(pose) if nd == 2 else np.array(pose))
    if sh.kind in ('rect', 'reg'):
        drawn = [fixl(surf[0][:, k], S4) for k in range(surf[0].shape[1])]
    elif sh.kind in ('cuboid', 'prisma'):
        pts = {tuple(np.round(q[:, k], 7)) for q in surf for k in range(q.shape[1])}
        drawn = [fixl(q, S4) for q in sorted(pts)]
        # rounding may tell equal corners apart
        keep = []
        for q in drawn:
            if not any(max(abs(a-b) for a, b in zip(q, w)) <= 2 for w in keep):
                keep.append(q)
        drawn = keep
    return {'type': 'shape', 'sh': sh.spec(), 'box': box, 'pos': fixl(pos, S4), 'hyp': hyp, 'drawn': drawn,
            'pose': [fix(v, S4 if k < nd else S6) for k, v in enumerate(pose)], 'key': 'shape/' + sh.kind}


def poly_shape(P):
    from omgtools.basics.shape import Polyhedron
    return Polyhedron(np.array(P, float).T*U)


def near(rng, P, pos, d):
    """somewhere on or near the border"""
    k = rng.randrange(len(P))
    a, b = np.array(P[k]), np.array(P[(k+1) % len(P)])
    r = rng.choice([0., 1., rng.random(), rng.random()])
    c = a + r*(b-a) + np.array(pos)
    return [int(round(c[0])) + rint(rng, d), int(round(c[1])) + rint(rng, d)]


def f_poly(rng):
    from omgtools.basics.geometry import point_in_polyhedron
    P, pos = convex(rng), [rint(rng, 60), rint(rng, 60)]
    p = near(rng, P, pos, 6) if rng.random() < .8 else [rint(rng, 99), rint(rng, 99)]
    said = bool(point_in_polyhedron([x*U for x in p], poly_shape(P), [x*U for x in pos]))
    return {'type': 'poly', 'P': P, 'pos': pos, 'p': p, 'said': said, 'key': 'poly'}


def f_disc(rng):
    from omgtools.basics.geometry import circle_polyhedron_intersection
    if rng.random() < .3:
        w, h = 2*rng.randint(2, 30), 2*rng.randint(2, 30)
        P = [[w//2, h//2], [w//2, -h//2], [-w//2, -h//2], [-w//2, h//2]]
        shape, key = og.Rectangle(width=w*U, height=h*U), 'disc/rect'
        if rng.random() < .3:
            # a turned rectangle, by a turn that stays on the grid
            c, s = rng.choice([(3, 4), (4, 3), (-3, 4), (4, -3)])
            w, h = 10*rng.randint(1, 5), 10*rng.randint(1, 5)
            P = [[(c*x-s*y)//5, (s*x+c*y)//5] for x, y in ((w//2, h//2), (w//2, -h//2), (-w//2, -h//2), (-w//2, h//2))]
            shape, key = og.Rectangle(width=w*U, height=h*U, orientation=math.atan2(s, c)), 'disc/turned'
    else:
        P = convex(rng)
        shape, key = poly_shape(P), 'disc/poly'
    pos = [rint(rng, 30), rint(rng, 30)]
    r = rng.randint(1, 25)
    p = near(rng, P, pos, r + 5) if rng.random() < .9 else [rint(rng, 60), rint(rng, 60)]
    A, B = obstacle(og.Circle(r*U), np.array(p)*U), obstacle(shape, np.array(pos)*U)
    before = shape.vertices.copy()
    said1, said2 = bool(A.overlaps_with(B)), bool(B.overlaps_with(A))
    side = bool(circle_polyhedron_intersection(A, shape, [float(x)*U for x in pos]))
    if not np.array_equal(before, shape.vertices):
        raise RuntimeError('asking changed the shape')
    return {'type': 'disc', 'P': P, 'pos': pos, 'p': p, 'r': r, 'said1': said1, 'said2': said2, 'side': side, 'key': key}


def f_discs(rng):
    r, s = rng.randint(1, 25), rng.randint(1, 25)
    p = [rint(rng, 40), rint(rng, 40)]
    al = rng.uniform(0, 6.283)
    d = (r+s)*rng.choice([.5, 1., 1., 1.5])
    q = [int(p[0] + d*math.cos(al)) + rint(rng, 2), int(p[1] + d*math.sin(al)) + rint(rng, 2)]
    A, B = obstacle(og.Circle(r*U), np.array(p)*U), obstacle(og.Circle(s*U), np.array(q)*U)
    return {'type': 'discs', 'p': p, 'q': q, 'r': r, 's': s, 'said': bool(A.overlaps_with(B)), 'key': 'discs'}


def f_boxes(rng):
    from omgtools.basics.geometry import compute_rectangle_overlap_center
    w = [2*rng.randint(1, 20) for _ in range(4)]
    p = [rint(rng, 40), rint(rng, 40)]
    q = [p[k] + rng.choice([1, -1])*((w[k]+w[k+2])//2 + rint(rng, 3) - rng.choice([0, 0, 8])) for k in range(2)]
    A = obstacle(og.Rectangle(width=w[0]*U, height=w[1]*U), np.array(p)*U)
    B = obstacle(og.Rectangle(width=w[2]*U, height=w[3]*U), np.array(q)*U)
    a = [p[0]-w[0]//2, p[1]-w[1]//2, p[0]+w[0]//2, p[1]+w[1]//2]
    b = [q[0]-w[2]//2, q[1]-w[3]//2, q[0]+w[2]//2, q[1]+w[3]//2]
    try:
        mid = fixl(np.array(compute_rectangle_overlap_center(A.shape, np.array(p)*U, B.shape, np.array(q)*U))/U, 100)
    except RuntimeError:
        mid = [10**8, 10**8]
    return {'type': 'boxes', 'a': a, 'b': b, 'said1': bool(A.overlaps_with(B)), 'said2': bool(B.overlaps_with(A)), 'mid': mid, 'key': 'boxes'}


def f_lines(rng):
    from omgtools.basics.geometry import intersect_line_segments, intersect_lines
    while True:
        a, b, c, d = [[rint(rng, 20), rint(rng, 20)] for _ in range(4)]
        if rng.random() < .2:
            d = [c[0] + 2*(b[0]-a[0]), c[1] + 2*(b[1]-a[1])]
        if a != b and c != d:
            break
    F = lambda p: [float(x) for x in p]
    at = intersect_lines([F(a), F(b)], [F(c), F(d)])
    return {'type': 'lines', 'a': a, 'b': b, 'c': c, 'd': d, 'said': bool(intersect_line_segments([F(a), F(b)], [F(c), F(d)])),
            'at': [] if at is None else fixl(at, 100), 'key': 'lines'}


def f_in(rng):
    from omgtools.basics.geometry import point_in_rectangle
    b = [rint(rng, 30), rint(rng, 30)]
    b += [b[0] + rng.randint(1, 40), b[1] + rng.randint(1, 40)]
    p = [rng.choice([b[k], b[k+2]]) + rint(rng, 6) if rng.random() < .6 else rng.randint(b[k]-3, b[k+2]+3) for k in range(2)]
    d = rng.choice([0, 0, rng.randint(1, 5)])
    B, P = [x*U for x in b], [x*U for x in p]
    kw = {'distance': d*U} if d else {}
    xy = point_in_rectangle(P, B, xy_check=True, **kw)
    return {'type': 'in', 'b': b, 'p': p, 'd': d, 'said': bool(point_in_rectangle(P, B, **kw)), 'x': bool(xy[0]), 'y': bool(xy[1]), 'key': 'in'}


def f_moving(rng):
    from omgtools.basics.geometry import point_in_rectangle
    b = [rint(rng, 30), rint(rng, 30)]
    b += [b[0] + rng.randint(1, 40), b[1] + rng.randint(1, 40)]
    H = rng.randint(5, 100)
    v = [rng.choice([0, rint(rng, 20), rint(rng, 5)]) for _ in range(2)]
    # aim at the rectangle, more or less
    t = rng.uniform(0, H*1.2)/10.
    p = [int(rng.randint(b[k]-4, b[k+2]+4) - t*v[k]) for k in range(2)]
    hz = H/10. if H % 10 or rng.random() < .5 else H//10
    return {'type': 'moving', 'b': b, 'p': p, 'v': v, 'H': H, 'key': 'moving',
            'said': bool(point_in_rectangle([x*U for x in p], [x*U for x in b], hz, [x*U for x in v]))}


def f_ring(rng):
    from omgtools.basics.shape import Ring
    rin = C14.rnd(rng, .5, 3)
    rout = rin + C14.rnd(rng, .05, 1)
    a, b = rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi, math.pi)
    full = rng.random() < .15
    if full:
        b = a
    elif abs(a - b) < .2 or abs(abs(a - b) - 2*math.pi) < .2:
        b = a + .5
    m = .5*(rin+rout)
    st = np.array([m*math.cos(a), m*math.sin(a), 0.])
    en = np.array([m*math.cos(b), m*math.sin(b), 0.]) if not full else st.copy()
    d = rng.choice(['CW', 'CCW'])
    R = Ring(rin, rout, st, en, d)
    pts = R.surfaces[0]
    n = pts.shape[1]//2
    idx = sorted(set(list(range(0, n, 41)) + [n-1]))
    inner = [fixl(pts[:2, k], 1000) for k in idx]
    outer = [fixl(pts[:2, 2*n-1-k], 1000) for k in idx]
    r = {'type': 'ring', 'rin': fix(rin, 1000), 'rout': fix(rout, 1000), 'inner': inner, 'outer': outer, 'dir': 1 if d == 'CCW' else -1,
         'start': fixl(st[:2]/m, 1000), 'end': fixl(en[:2]/m, 1000), 'box': [fixl(l, 1000) for l in R.get_canvas_limits()],
         'key': 'ring/full' if full else 'ring'}
    if full:
        # it may begin anywhere and go either way round
        c = inner[0][0]*inner[1][1] - inner[0][1]*inner[1][0]
        r['dir'] = 1 if c > 0 else -1
        r['start'] = r['end'] = [int(round(x/rin)) for x in inner[0]]
    return r


def f_bounce(rng):
    """an obstacle touches one flat side, away from corners, or nothing"""
    side = 20.
    env = og.Environment(room={'shape': og.Square(side)})
    kind = rng.choice(['circle', 'rect'])
    e = C14.rnd(rng, .2, .6)
    w, h = (e, e) if kind == 'circle' else (e, C14.rnd(rng, .2, .6))
    shape = og.Circle(e) if kind == 'circle' else og.Rectangle(width=2*w, height=2*h)
    what = rng.choice(['wall', 'rect', 'disc', 'free', 'still'])
    if what == 'disc' and kind == 'rect':
        what = 'rect'
    axis = rng.randrange(2)
    sgn = rng.choice([1, -1])
    deep = round(rng.uniform(.01, .1), 3)
    along = C14.rnd(rng, -3, 3)
    half = (w, h)[axis]
    p = [0., 0.]
    others = []
    if what in ('wall', 'still'):
        p[axis] = sgn*(side/2 - half + deep)
        p[1-axis] = along
    elif what == 'rect':
        big = [C14.rnd(rng, 2, 3), C14.rnd(rng, 2, 3)]
        c = [C14.rnd(rng, -3, 3), C14.rnd(rng, -3, 3)]
        others.append((og.Rectangle(width=2*big[0], height=2*big[1]), c))
        p[axis] = c[axis] - sgn*(big[axis] + half - deep)
        p[1-axis] = c[1-axis] + C14.rnd(rng, -1., 1.)
    elif what == 'disc':
        c = [C14.rnd(rng, -3, 3), C14.rnd(rng, -3, 3)]
        R = C14.rnd(rng, .3, 1.)
        others.append((og.Circle(R), c))
        p = list(c)
        p[axis] = c[axis] - sgn*(R + e - deep)
    else:
        p = [C14.rnd(rng, -5, 5), C14.rnd(rng, -5, 5)]
        if rng.random() < .6:
            others.append((rng.choice([og.Rectangle(1., 1.), og.Circle(.5)]), [p[0] + rng.choice([-1, 1])*3., p[1] + C14.rnd(rng, -4, 4)]))
    v = [0., 0.]
    v[axis] = sgn*C14.rnd(rng, .1, .6)
    if rng.random() < .5 and what != 'disc':
        v[1-axis] = rng.choice([1, -1])*C14.rnd(rng, .1, .6)
    simul = {'trajectories': {'velocity': {'time': [0.], 'values': [v]}}}
    bounce = what != 'still'
    with vlib.quiet():
        o = og.Obstacle({'position': p}, shape=shape, simulation=simul, options={'bounce': bounce})
        env.add_obstacle(o)
        for s, c in others:
            env.add_obstacle(og.Obstacle({'position': [float(x) for x in c]}, shape=s))
        before = fixl(o.signals['velocity'][:, -1], S4)
        env.simulate(.05, .05)
    after = fixl(o.signals['velocity'][:, -1], S4)
    return {'type': 'bounce', 'what': 'free' if what == 'still' else what, 'axis': axis+1, 'before': before, 'after': after,
            'key': 'bounce/%s/%s' % (what, kind)}


def f_run(rng, fast=False):
    """a history: one obstacle bounces about in an otherwise empty room"""
    size = [C14.rnd(rng, 2, 4), C14.rnd(rng, 2, 4)]
    at = rng.choice([[0., 0.], [C14.rnd(rng, -4, 4), C14.rnd(rng, -4, 4)]])
    env = og.Environment(room={'shape': og.Rectangle(width=size[0], height=size[1]), 'position': at})
    kind = rng.choice(['circle', 'rect'])
    half = [C14.rnd(rng, .1, .4), C14.rnd(rng, .1, .4)]
    if kind == 'circle':
        half[1] = half[0]
    shape = og.Circle(half[0]) if kind == 'circle' else og.Rectangle(width=2*half[0], height=2*half[1])
    p = [at[k] + rng.uniform(-1, 1)*(size[k]/2-half[k]-.01) for k in range(2)]
    v = [rng.choice([0., rng.choice([1, -1])*C14.rnd(rng, .1, .6)]) for _ in range(2)]
    dt = rng.choice([.1, .05])
    if fast:
        # the one history of the known finding
        size, at, half, shape, p, v, dt = [4., 4.], [0., 0.], [.3, .3], og.Circle(.3), [-1.6, 1.3], [-2.5, 2.5], .1
        env = og.Environment(room={'shape': og.Rectangle(width=4., height=4.)})
    simul = {'trajectories': {'velocity': {'time': [0.], 'values': [v]}}}
    pos, vel = [], []
    with vlib.quiet():
        o = og.Obstacle({'position': p}, shape=shape, simulation=simul, options={'bounce': True})
        env.add_obstacle(o)
        for k in range(150):
            pos.append(fixl(o.signals['position'][:, -1], S6))
            vel.append(fixl(o.signals['velocity'][:, -1], S4))
            env.simulate(dt, dt)
    room = [fixl([at[k]-size[k]/2+half[k], at[k]+size[k]/2-half[k]], S6) for k in range(2)]
    return {'type': 'run', 'room': room, 'pos': pos, 'vel': vel, 'dt': int(round(dt*100)), 'key': 'run/fast-corner' if fast else 'run/%s' % kind}


FAM = [('shape', f_shape, 150), ('poly', f_poly, 200), ('disc', f_disc, 500), ('discs', f_discs, 80), ('boxes', f_boxes, 150),
       ('lines', f_lines, 200), ('in', f_in, 150), ('moving', f_moving, 250), ('ring', f_ring, 60), ('bounce', f_bounce, 120), ('run', f_run, 32), ('fast', lambda rng: f_run(rng, True), 1)]


def job(a):
    setup()
    rng = random.Random(a[1])
    fam = {n: f for n, f, _ in FAM}[a[0]]
    out = []
    for k in range(a[2]):
        try:
            r = fam(rng)
        except Exception as e:
            import traceback
            out.append(('raises', traceback.format_exc()[-600:], {'key': a[0], 'job': list(a), 'nr': k}))
            continue
        r['case'] = {'key': r.pop('key'), 'job': list(a), 'nr': k}
        out.append(r)
    return out


def run(ctx):
    setup()
    ctx.design('GeoModel', DESIGN % (2, 2) if ctx.quick else DESIGN % (3, 3), workers=8, timeout=1500)
    ctx.design('BounceModel', BOUNCE % ((20, 3, 8) if ctx.quick else (40, 5, 14)), workers=8, timeout=900)
    f = 1 if ctx.quick else 20
    jobs = []
    for n, _, k in FAM:
        for _ in range(4*f if k > 1 else 1):
            jobs.append((n, ctx.rng.randrange(10**9), k//4+1))
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 300)):
        if st != 'ok':
            ctx.violation('raises.' + j[0], str(r)[-900:], {'key': j[0], 'job': list(j)})
            continue
        for x in r:
            if isinstance(x, tuple):
                ctx.violation('raises.' + j[0], x[1], x[2])
            else:
                recs.append(x)
    ctx.judge('GeoTrace', recs, shards=8, timeout=1500)
    ctx.evals = len(recs)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('type', 'case')})


if __name__ == '__main__':
    vlib.main('C16', run)
