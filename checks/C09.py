"""The scheduler: handing a vehicle from frame to frame until it is there."""
import math
import random
import numpy as np
import vlib
import sched
from vlib import fix, fixl

S = 10**4
DESIGN = '''SPECIFICATION Spec
CONSTANTS G=%d R=%d n0=%d Obs=%s Drop="none"
INVARIANTS Sane InsideFrame Current Joined
PROPERTIES Arrives
CHECK_DEADLOCK FALSE
'''


def clear(p, L, d):
    return L[0]+d <= p[0] <= L[2]-d and L[1]+d <= p[1] <= L[3]-d


def frec(f):
    return {'L': fixl(f.border['limits'], S), 'end': fixl(f.endpoint, S)}


def history(rng, case):
    sched.setup()
    og = sched.og
    from omgtools.basics.optilayer import OptiChild
    OptiChild._labels = []
    del sched.BUILT[:]
    w = sched.corridor_world(rng)
    m = 1.1*w['r']
    typ = case['key'].split('/')[0]
    nf = int(case['key'].split('/')[1])
    lshape = 'l' in case['key'].split('/')[2:]
    fixedT = 'fixed' in case['key'].split('/')[2:]
    veh = 'dubins' if 'dubins' in case['key'].split('/')[2:] else 'holonomic'

    def spot():
        for _ in range(80):
            p = [sched.r2(rng, w['c'][k]-w[s]/2, w['c'][k]+w[s]/2) for k, s in ((0, 'W'), (1, 'H'))]
            if sched.free(w, p, m+.02):
                return p
    p, g = spot(), spot()
    if p is None or g is None or math.hypot(p[0]-g[0], p[1]-g[1]) < 1.:
        return None
    env, obs = sched.make_env(w)
    with vlib.quiet():
        if veh == 'holonomic':
            v = og.Holonomic(shapes=og.Circle(w['r']))
            v.set_initial_conditions(list(p))
            v.set_terminal_conditions(list(g))
        else:
            v = og.Dubins(shapes=og.Circle(w['r']), bounds={'vmax': .7, 'wmax': 1., 'wmin': -1.})
            v.set_initial_conditions(list(p)+[0.])
            v.set_terminal_conditions(list(g)+[0.])
        planner = og.AStarPlanner(env, w['nc'], list(p), list(g), {'veh_size': w['r']} if rng.random() < .5 else {})
        try:
            planner.get_path()
        except RuntimeError:
            return None
        ts = rng.choice([.5, .25])
        opt = {'freeT': not fixedT, 'frame_type': typ, 'n_frames': nf, 'check_moving_obs_ts': ts, 'verbose': 0,
               'scale_up_fine': rng.random() < .5, 'l_shape': lshape}
        if typ == 'shift':
            opt['frame_size'] = rng.choice([3.5, 4.5])
            opt['move_limit'] = opt['frame_size']*.25
        if fixedT:
            opt['horizon_time'] = 10.
        v.simulate = lambda *a: None      # moved below
        sp = og.SchedulerProblem(v, env, planner, options=opt)
        sp.init()
    c = w['c']
    h = {'type': 'history', 'room': fixl([c[0]-w['W']/2, c[1]-w['H']/2, c[0]+w['W']/2, c[1]+w['H']/2], S), 'goal': fixl(g, S), 'r': fix(w['r'], S), 'm': fix(m, S),
         'obs': [fixl(sched.box(o), S) for o in w['obs']], 'kind': typ, 'n0': nf, 'l': lshape, 'ts': fix(ts, 100), 'veh': veh,
         'paths': [], 'steps': [], 'arrived': False, 'over': '', 'goalT': fixl(v.poseT, S), 'case': case}
    dt = rng.choice([.1, .2, .3, .5])
    sample = .05 if rng.random() < .5 else .1
    noise = rng.choice([0., .02, .1])
    pos = np.array(p)
    th = 0.

    def snap(built, stop=False):
        lp = sp.local_problem
        gv = lp.given
        lim = [[float(q[0]-s.width/2), float(q[1]-s.height/2), float(q[0]+s.width/2), float(q[1]+s.height/2)] for s, q in gv['rooms']]
        second = None
        if nf == 1:
            second = getattr(sp, 'next_frame', None)
        mv = []
        for o, d in zip(obs[len(w['obs']):], w['mov']):
            q, vel = o.signals['position'][:, -1], o.signals['velocity'][:, -1]
            hx, hy = sched.half(d)
            mv.append({'b': fixl([q[0]-hx, q[1]-hy, q[0]+hx, q[1]+hy], S), 'v': fixl(vel, S)})
        gs = [np.array(lp.father.guess.get('splines_seg%d' % k, [[float('nan')]*2])) for k in range(lp.n_rooms)]
        return {'pos': fixl(pos, S), 'frames': [frec(f) for f in sp.frames], 'nxt': [frec(second)] if second is not None else [],
                'built': built, 'rooms': [fixl(x, S) for x in lim], 'xT': fixl(gv['xT'], S), 'x0': fixl(gv['x0'], S),
                'stat': [[any(x is o for x in lst) for o in obs[:len(w['obs'])]] for lst in gv['obs']],
                'mov': [[any(x is o for x in lst) for o in obs[len(w['obs']):]] for lst in gv['obs']],
                'alien': sum(1 for lst in gv['obs'] for x in lst if not any(x is o for o in obs)),
                'mv': mv, 'T': [fix(min(float(t), 60.), 100) for t in sp.motion_times], 'guess': [bool(np.isfinite(q).all()) and q.shape == (len(v.basis), 2) for q in gs],
                'g0': fixl(gs[0][0], S) if np.isfinite(gs[0]).all() else [0, 0], 'gT': fixl(gs[-1][-1], S) if np.isfinite(gs[-1]).all() else [0, 0],
                'fresh': bool(lp.fresh)}

    total = sum(abs(p[k]-g[k]) for k in range(2)) + w['W'] + w['H']
    limit = int(8*total/(.5*dt)) + 60
    t = 0.
    try:
        # the stand-in has to know where each frame ends
        sp.generate_problem = lambda real=sp.generate_problem: _ends(sp, real)
        with vlib.quiet():
            sp.reinitialize()
            nb = len(sched.BUILT)
            for k in range(limit):
                sp.solve(t, dt)
                built = len(sched.BUILT) > nb
                nb = len(sched.BUILT)
                s = snap(built or k == 0)
                h['steps'].append(s)
                path = [s['pos']] + [fixl(q, S) for q in sp.global_path] if built or k == 0 else []
                if path and path[1:] not in [q[1:] for q in h['paths']]:
                    h['paths'].append(path)
                left = dt if fixedT else min(dt, sum(sp.local_problem.father.T))
                h['due'] = h.get('due', 0) + (int(round(left/sample, 6)) if left >= sample else 0)
                sp.store(t, dt, sample)
                sp.simulate(t, dt, sample)
                # along the plan, and off it a bit
                left = .5*dt
                targets = [np.array(e) for e in sp.local_problem.ends[:-1]] + [np.array(sp.local_problem.given['xT'][:2])]
                cur, new = 0, pos.copy()
                while left > 1e-9 and cur < len(targets):
                    d = np.linalg.norm(targets[cur]-new)
                    if d <= left:
                        new, left = targets[cur].copy(), left-d
                        cur += 1
                    else:
                        th = math.atan2(*(targets[cur]-new)[::-1])
                        new = new + (targets[cur]-new)*left/d
                        left = 0.
                if noise and cur == 0 and np.linalg.norm(targets[0]-new) > 3*noise:
                    L = sp.frames[0].border['limits']
                    q = new + np.array([rng.uniform(-noise, noise), rng.uniform(-noise, noise)])
                    if clear(q, L, w['r']):
                        new = q
                u = (new-pos)/dt
                pos = new
                st = np.array(list(pos) + ([th] if veh == 'dubins' else []))
                inp = u if veh == 'holonomic' else np.array([float(np.linalg.norm(u)), 0.])
                v.signals = {'state': st.reshape(-1, 1), 'input': inp.reshape(-1, 1)}
                t += dt
                if sp.stop_criterium(t, dt):
                    h['arrived'] = True
                    break
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        h['over'] = '%s %s (%s)' % (type(e).__name__, str(e)[:60], tb.name)
        if hasattr(sp, 'global_path'):
            h['paths'].append([fixl(pos, S)] + [fixl(q, S) for q in sp.global_path])
    h['last'] = fixl(pos, S)
    h['stored'] = len(getattr(sp, 'frame_storage', []))
    h.setdefault('due', 0)
    # a history is judged step by step; keep it short where nothing changes
    h['steps'] = thin(h['steps'])
    if not h['arrived'] and not h['over']:
        h['over'] = 'stalled'
    return h


def thin(steps):
    out = []
    for k, s in enumerate(steps):
        near = steps[max(0, k-1):k+2]
        if k in (0, len(steps)-1) or any(x['built'] for x in near) or k % 5 == 0 or any(x['mov'] != s['mov'] or x['frames'] != s['frames'] for x in near):
            out.append(dict(s, nr=k))
    return out


def real(rng, case):
    """a whole run with the real optimization: what is planned, and where the vehicle goes"""
    sched.setup()
    og = sched.og
    from omgtools.basics.optilayer import OptiChild
    OptiChild._labels = []
    w = sched.corridor_world(rng)
    w['mov'] = w['mov'][:1]
    for o in w['mov']:
        # one that the vehicle can get past
        o.update({'kind': 'circle', 'w': .4, 'h': .4, 'th': 0.})
        o['v'] = [sched.r2(rng, -.2, .2), sched.r2(rng, -.2, .2)]
    w['r'] = rng.choice([.1, .2])
    nf = int(case['key'].split('/')[2])
    lshape = case['key'].endswith('/l')

    def spot(far=None):
        for _ in range(400):
            p = [sched.r2(rng, w['c'][k]-w[s]/2, w['c'][k]+w[s]/2) for k, s in ((0, 'W'), (1, 'H'))]
            if sched.free(w, p, w['cell']+.25) and (far is None or math.hypot(p[0]-far[0], p[1]-far[1]) > .45*(w['W']+w['H'])/2):
                return p
    p = spot()
    g = spot(p) if p else None
    if g is None:
        return None
    if any(math.hypot(o['p'][0]-q[0], o['p'][1]-q[1]) < 1.5 for o in w['mov'] for q in (p, g)):
        w['mov'] = []
    env, obs = sched.make_env(w)
    upd = rng.choice([.2, .4])
    rec = {'type': 'real', 'r': fix(w['r'], S), 'm': fix(1.1*w['r'], S), 'obs': [fixl(sched.box(o), S) for o in w['obs']], 'goal': fixl(g, S),
           'room': fixl([w['c'][0]-w['W']/2, w['c'][1]-w['H']/2, w['c'][0]+w['W']/2, w['c'][1]+w['H']/2], S), 'plans': [], 'over': '', 'n0': nf,
           'case': case}
    with vlib.quiet():
        v = og.Holonomic(shapes=og.Circle(w['r']), bounds={'vmax': .7, 'vmin': -.7, 'amax': 1., 'amin': -1.})
        v.define_knots(knot_intervals=8)
        v.set_initial_conditions(list(p))
        v.set_terminal_conditions(list(g))
        planner = og.AStarPlanner(env, w['nc'], list(p), list(g), {'veh_size': w['r']})
        try:
            planner.get_path()
        except RuntimeError:
            return None
        sp = og.SchedulerProblem(v, env, planner, options={'freeT': True, 'frame_type': 'corridor', 'n_frames': nf, 'scale_up_fine': True, 'l_shape': lshape, 'verbose': 0,
                                                           'check_moving_obs_ts': .25, 'solver_options': {'ipopt': {'ipopt.print_level': 0, 'print_time': 0}}})
        sp.init()
        sim = og.Simulator(sp, sample_time=.02, update_time=upd)
        plain = sp.solve

        def solve(t, dt):
            plain(t, dt)
            lp = sp.local_problem
            n = len(lp.environment.room)
            T = [float(lp.father.get_variables(lp, 'T%d' % k)[0][0]) for k in range(n)]
            seg, v0, v1 = [], [], []
            for k in range(n):
                sx, sy = lp.father.get_variables(v, 'splines_seg%d' % k)
                tau = np.linspace(0., 1., 21)
                seg.append([fixl([a, b], S) for a, b in zip(np.ravel(sx(tau)), np.ravel(sy(tau)))])
                dx, dy = sx.derivative(), sy.derivative()
                for lst, x in ((v0, 0.), (v1, 1.)):
                    lst.append(fixl([float(np.ravel(dx(np.array([x])))[0])/T[k], float(np.ravel(dy(np.array([x])))[0])/T[k]], S))
            now = [float(x) for x in v.prediction['state']]
            rec['plans'].append({'ok': lp.problem.stats()['return_status'] == 'Solve_Succeeded', 'rooms': [fixl([q['position'][0]-q['shape'].width/2, q['position'][1]-q['shape'].height/2,
                                 q['position'][0]+q['shape'].width/2, q['position'][1]+q['shape'].height/2], S) for q in lp.environment.room],
                                 'T': [fix(x, S) for x in T], 'seg': seg, 'v0': v0, 'v1': v1, 'now': fixl(now, S), 'end': fixl(sp.frames[-1].endpoint, S)})
        sp.solve = solve
        limit = 0
        sim.deployer.reset()
        try:
            for limit in range(250):
                stop = sim.update()
                sim.update_timing()
                if stop:
                    break
            else:
                rec['over'] = 'too long'
        except Exception as e:
            import traceback
            rec['over'] = '%s %s' % (type(e).__name__, str(e)[:80]) + traceback.format_exc()[-300:]
    x = v.signals['state'] if hasattr(v, 'signals') else np.zeros((2, 1))
    step = max(1, x.shape[1]//150)
    ks = list(range(0, x.shape[1], step)) + [x.shape[1]-1]
    rec['drive'] = [fixl(x[:, k], S) for k in ks]
    rec['lens'] = sorted({x.shape[1] for x in v.signals.values()}) if hasattr(v, 'signals') else []
    rec['aligned'] = len(rec['lens']) <= 1
    mv = [o.signals['position'] for o in obs[len(w['obs']):]]
    rec['mov'] = [[fixl(q[:, min(k, q.shape[1]-1)], S) for k in ks] for q in mv]
    rec['movr'] = [fix(o['w']/2, S) for o in w['mov']]
    return rec


def realjob(a):
    sched.setup()
    for k in range(20):
        r = real(random.Random('%d/%d' % (a[1], k)), {'key': a[0], 'seed': [a[1], k]})
        if r:
            return [r]
    return []


def _ends(sp, real):
    lp = real()
    lp.fresh = not hasattr(sp, 'last_ends') or sp.last_ends != [list(f.endpoint) for f in sp.frames]
    sp.last_ends = [list(f.endpoint) for f in sp.frames]
    lp.ends = [list(f.endpoint) for f in sp.frames]
    return lp


KEYS = ['corridor/1', 'corridor/2', 'corridor/3', 'corridor/1/l', 'corridor/2/l', 'corridor/1/fixed', 'shift/1', 'shift/1/fixed', 'corridor/1/dubins', 'corridor/2/dubins']


def job(a):
    sched.setup()
    sched.install()
    out = []
    for k in range(a[2]):
        rng = random.Random('%d/%d' % (a[1], k))
        try:
            h = history(rng, {'key': a[0], 'seed': [a[1], k]})
        except Exception:
            import traceback
            out.append(('raises', traceback.format_exc()[-700:], {'key': a[0], 'seed': [a[1], k]}))
            continue
        if h:
            out.append(h)
    return out


def run(ctx):
    sched.setup()
    for n0 in (1, 2, 3):
        ctx.design('SchedModel', DESIGN % ((6, 1, n0, '{1}') if ctx.quick else (7, 1, n0, '{1}' if n0 == 3 else '{1, 2}')), workers=8, timeout=1500, name='SchedModel%d' % n0)
    n = 8 if ctx.quick else 60
    jobs = [(k, ctx.rng.randrange(10**9), n) for k in KEYS for _ in range(4)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 500)):
        if st != 'ok':
            ctx.violation('raises', str(r)[-900:], {'key': j[0], 'job': list(j)})
            continue
        for x in r:
            if isinstance(x, tuple):
                ctx.violation(*x)
            else:
                recs.append(x)
    n = 2 if ctx.quick else 20
    jobs = [(k, ctx.rng.randrange(10**9)) for _ in range(n) for k in ('real/c/1', 'real/c/2', 'real/c/1/l', 'real/c/2/l', 'real/c/3')]
    for j, (st, r) in zip(jobs, vlib.parallel(realjob, jobs, 8, 600)):
        if st != 'ok':
            ctx.violation('raises', str(r)[-900:], {'key': j[0], 'job': list(j)})
        else:
            recs += r
    ctx.judge('SchedTrace', recs, shards=8, timeout=1500)
    ctx.evals = sum(len(r['steps']) if 'steps' in r else len(r['plans']) for r in recs)
    for r in recs[:2]:
        ctx.sample({'case': r['case'], 'steps': len(r.get('steps', [])), 'arrived': r.get('arrived')})


if __name__ == '__main__':
    vlib.main('C09', run)
