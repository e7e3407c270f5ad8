"""Frames: the parts of the room that the scheduler plans in."""
import random
import numpy as np
import vlib
import sched
from vlib import fix, fixl

S = 10**4
DESIGN = '''SPECIFICATION Spec
CONSTANTS N=%d M=%d Steps=%d Drop="none"
INVARIANTS InRoom NoObstacle StartClear EndClear Progress GoalIf Widest
PROPERTIES Chain Reaches
CHECK_DEADLOCK FALSE
'''


def spot(rng, w, d):
    for _ in range(60):
        p = [sched.r2(rng, w['c'][k]-w[s]/2, w['c'][k]+w[s]/2) for k, s in ((0, 'W'), (1, 'H'))]
        if sched.free(w, p, d):
            return p


def common(w, path, start, goal):
    c, m = w['c'], 1.1*w['r']
    return {'room': fixl([c[0]-w['W']/2, c[1]-w['H']/2, c[0]+w['W']/2, c[1]+w['H']/2], S), 'start': fixl(start, S), 'goal': fixl(goal, S),
            'r': fix(w['r'], S), 'm': fix(m, S), 'obs': [fixl(sched.box(o), S) for o in w['obs']], 'path': [fixl(q, S) for q in path]}


def movs(w, obs, f, T):
    """which obstacles the frame takes for moving, next to where they really are"""
    for o in obs:
        o.set_options({'avoid': False})
    got = f.get_moving_obstacles(T)
    stat = f.get_stationary_obstacles()
    out = []
    for o, d in zip(obs[len(w['obs']):], w['mov']):
        p, v = o.signals['position'][:, -1], o.signals['velocity'][:, -1]
        th = float(o.signals['orientation'][0, -1]) if o.shape.n_dim == 2 and np.ndim(o.signals['orientation']) == 2 else 0.
        hx, hy = sched.half(d)
        out.append({'b': fixl([p[0]-hx, p[1]-hy, p[0]+hx, p[1]+hy], S), 'v': fixl(v, S), 'in': any(x is o for x in got),
                    'avoid': bool(o.options.get('avoid', False)), 'stat': any(x is o for x in stat)})
    return out, [any(x is o for x in stat) for o in obs[:len(w['obs'])]]


def rec(w, obs, f, typ, path, start, goal, T, ts, after=False, step=0.):
    r = common(w, path, start, goal)
    mv, _ = movs(w, obs, f, T)
    st = f.stationary_obstacles if not after else f.get_stationary_obstacles()
    b = f.border
    r.update({'type': typ, 'L': fixl(b['limits'], S), 'end': fixl(f.endpoint, S), 'wps': [fixl(q, S) for q in f.waypoints],
              'pos': fixl(b['position'][:2], S), 'size': fixl([b['shape'].width, b['shape'].height], S),
              'stat': [any(x is o for x in st) for o in obs[:len(w['obs'])]], 'movs': mv, 'T': fix(T, 100), 'ts': fix(ts, 100),
              'after': after, 'step': fix(step, S)})
    return r


def world(rng, seed):
    sched.setup()
    og = sched.og
    from omgtools.basics.optilayer import OptiChild
    OptiChild._labels = []
    w = sched.rand_world(rng)
    m = 1.1*w['r']
    p, g = spot(rng, w, m+.02), spot(rng, w, m+.02)
    if p is None or g is None:
        return None
    env, obs = sched.make_env(w)
    opt = {'veh_size': w['r']} if rng.random() < .75 else {}
    with vlib.quiet():
        try:
            pl = og.AStarPlanner(env, w['nc'], p, g, opt)
            path = pl.get_path()
        except RuntimeError:        # no way to get there
            return None
        path.append(list(g))
        if rng.random() < .5:
            env.simulate(.5, .1)
    return w, p, g, env, obs, pl, path


def chain(rng, seed, typ):
    from omgtools.environment.frame import CorridorFrame, ShiftFrame
    x = world(rng, seed)
    if x is None:
        return []
    w, p, g, env, obs, pl, path = x
    ts = rng.choice([.5, .5, .2])
    opt = {'scale_up_fine': rng.random() < .6, 'verbose': 0, 'check_moving_obs_ts': ts}
    fsize = rng.choice([3., 4., 5.])
    lim = rng.choice([.25, .2])*fsize
    out, frames, start = [], [], p
    key = {'key': typ, 'seed': seed}
    for k in range(12):
        T = sched.r2(rng, .3, 8)
        given = [list(q) for q in path]
        try:
            with vlib.quiet():
                if typ == 'corridor':
                    f = CorridorFrame(env, list(start), path, w['r'], 1.1, opt)
                else:
                    f = ShiftFrame(env, list(start), fsize, lim, path, w['r'], 1.1, opt)
        except RuntimeError as e:
            r = common(w, given, start, g)
            r.update({'type': 'refused', 'msg': str(e)[:40], 'case': key})
            out.append(r)
            break
        with vlib.quiet():
            r = rec(w, obs, f, typ, given, start, g, T, ts, step=.1 if opt['scale_up_fine'] else 1.1*w['r'])
        r['case'] = key
        if typ == 'shift':
            r.update({'fsize': fix(fsize, S), 'lim': fix(lim, S)})
        out.append(r)
        frames.append((f, start, given))
        e = list(f.endpoint)
        if e == g or e == list(start):
            break
        start = e
        if rng.random() < .4:
            with vlib.quiet():
                try:
                    path = pl.get_path(start=list(start), goal=list(g))
                except RuntimeError:
                    break
                path.append(list(g))
    if typ == 'corridor' and len(frames) > 1 and frames[-1][0].endpoint != frames[-1][1] and rng.random() < .7:
        # fit them to each other
        for (a, sa, pa), (b, sb, pb) in zip(frames, frames[1:]):
            with vlib.quiet():
                a.create_l_shape(b)
                for f, s, q in ((a, sa, pa), (b, sb, pb)):
                    r = rec(w, obs, f, 'corridor', q, s, g, 1., ts, after=True)
                    r['case'] = {'key': 'lshape', 'seed': seed}
                    out.append(r)
            out.append({'type': 'pair', 'end': out[-2]['end'], 'L2': out[-1]['L'], 'r': out[-1]['r'], 'case': {'key': 'lshape', 'seed': seed}})
    return out


def job(a):
    sched.setup()
    out = []
    for k in range(a[2]):
        rng = random.Random('%d/%d' % (a[1], k))
        try:
            out += chain(rng, [a[1], k], a[0])
        except Exception:
            import traceback
            out.append(('raises.' + a[0], traceback.format_exc()[-700:], {'key': a[0], 'seed': [a[1], k]}))
    return out


def run(ctx):
    sched.setup()
    ctx.design('FrameModel', DESIGN % ((10, 2, 3) if ctx.quick else (10, 2, 5)), workers=8, timeout=1500)
    n = 30 if ctx.quick else 250
    jobs = [(t, ctx.rng.randrange(10**9), k) for t, k in (('corridor', 20), ('corridor', 20), ('corridor', 20), ('shift', 20)) for _ in range(n)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 400)):
        if st != 'ok':
            ctx.violation('raises', str(r)[-900:], {'key': j[0], 'job': list(j)})
            continue
        for x in r:
            if isinstance(x, tuple):
                ctx.violation(*x)
            else:
                recs.append(x)
    ctx.judge('FrameTrace', recs, shards=8, timeout=1500)
    ctx.evals = len(recs)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('type', 'case', 'L', 'end') if k in r})


if __name__ == '__main__':
    vlib.main('C08', run)
