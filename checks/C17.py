"""The exported C++ next to the Python problem it comes from."""
import math
import os
import random
import shutil
import tempfile
import numpy as np
import admmx
import cppx
import vlib

S = 10**5
DESIGN = '''SPECIFICATION Spec
CONSTANTS Shape=%d K=%d U=%d Limit=%d Bug="%s"
CONSTRAINT Bounded
INVARIANTS %s
CHECK_DEADLOCK FALSE
'''


def big(v, s=S):
    """numbers, infinities included"""
    a = np.clip(np.nan_to_num(np.ravel(np.asarray(v, dtype=float))*s, nan=2e9, posinf=2e9, neginf=-2e9), -2e9, 2e9)
    return [int(round(x)) for x in a]


class Recorder(object):
    """in place of the solver of a problem: what it is asked.  It is then given the guess and the bounds of the exported one"""
    def __init__(self, solver):
        self.solver, self.asked, self.force = solver, None, {}

    def __call__(self, **kw):
        self.asked = {k: np.array(v.cat if hasattr(v, 'cat') else v, dtype=float).ravel() for k, v in kw.items()}
        return self.solver(**dict(kw, **self.force))

    def stats(self):
        return self.solver.stats()


def make(og, rng):
    H = rng.choice([5., 10., 4., 8.])
    timing = rng.choice([(.1, .01), (.3, .1), (.5, .1), (.2, .05), (.6, .2), (.7, .1), (.4, .1), (.25, .05), (.05, .05)])
    opt = {}
    room = rng.random() < .5
    v = og.Holonomic(shapes=og.Circle(rng.choice([.1, .2])), options={'room_constraints': room},
                     bounds={'vmax': 1.5, 'vmin': -1.5, 'amax': 2., 'amin': -2.})
    v.set_initial_conditions([0., 0.])
    v.set_terminal_conditions([2., 2.])
    env = og.Environment(room={'shape': og.Square(9.), 'position': [1., 1.]})
    kinds = []
    for k in range(rng.choice([0, 1, 1, 2, 2])):
        shape = rng.choice([og.Rectangle(width=rng.choice([.5, 1.]), height=rng.choice([.3, .8])), og.Circle(rng.choice([.2, .4])), og.RegularPolyhedron(.3, rng.choice([3, 5, 6]))])
        kind = rng.choice(['classic', 'classic', 'spline'])
        o = {}
        if kind == 'spline':
            deg = rng.choice([1, 2])
            knots = [0.]*(deg+1) + ([.5] if rng.random() < .5 else []) + [1.]*(deg+1)
            n = len(knots)-deg-1
            c = np.array([[rng.uniform(-2, 2) + 3*(k % 2), rng.uniform(3.5, 4.5)] for _ in range(n)])
            o = {'spline_traj': True, 'spline_params': {'knots': knots, 'degree': deg, 'coeffs': c}}
        env.add_obstacle(og.Obstacle({'position': [4.5-9.*k, -2.]}, shape=shape, options=o))
        kinds.append(kind)
    if rng.random() < .25:      # where to end is left open, in some directions
        from omgtools.problems.point2point import FreeEndPoint2point
        p = FreeEndPoint2point(v, env, {'horizon_time': H}, {v: rng.choice([[0], [1], [0, 1]])})
    else:
        p = og.Point2point(v, env, {'horizon_time': H, 'hard_term_con': rng.random() < .3}, freeT=False)
    return p, v, env, kinds, H, timing


def spell(rng, key):
    """one exported problem, and several histories of it"""
    vlib.import_repo()
    import omgtools as og
    from omgtools.basics.optilayer import OptiChild
    OptiChild._labels = []
    d = tempfile.mkdtemp(prefix='omgverif_cpp_') + '/'
    here = os.getcwd()
    try:
        p, v, env, kinds, H, timing = make(og, rng)
        os.chdir(d)
        with vlib.quiet():
            p.init()
            p.export({'directory': d, 'casadiobj': d+'bin/', 'namespace': 'omg'})
        exe, err = cppx.build(d, ['Holonomic_omg.cpp'], cppx.MAIN)
        if exe is None:
            return [{'type': 'fail', 'what': 'build', 'text': err[-300:], 'case': key}]
        p.problem = Recorder(p.problem)
        out = []
        for h in range(4):
            out.append(history(rng, p, v, env, kinds, H, timing, exe, d, dict(key, history=h)))
        out += units(rng, og, exe, d, key)
        return out
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def history(rng, p, v, env, kinds, H, timing, exe, d, key):
    from omgtools.basics.spline import BSpline
    upd, ts = timing
    steps = int(round(upd/ts))
    L = rng.choice([1, steps, steps+3, steps+rng.randint(0, 6)])
    L = max(1, min(L, int(H/ts+1e-6)))
    mode = rng.choice([0, 0, 1, 1, 2])
    v.set_options({'ideal_prediction': mode == 1})
    e = cppx.Exe(exe, d)
    rec = {'type': 'run', 'upd': big(upd, 10**6)[0], 'ts': big(ts, 10**6)[0], 'H': big(H, 10**6)[0], 'L': L, 'mode': mode, 'steps': [], 'died': '', 'case': key,
           'kinds': kinds, 'n': steps}
    t = tprev = 0.
    began = False
    state = [0., 0.]
    target = [rng.uniform(1, 3), rng.uniform(1, 3)]
    obs = []
    for k, o in enumerate(env.obstacles):
        cp, rad = o.shape.get_checkpoints()
        side = [-2.2, 4.2][k % 2]
        obs.append({'x': [side + rng.uniform(-.3, .3), rng.uniform(-1, 3)], 'v': [rng.uniform(-.1, .1), rng.uniform(-.4, .4)] if rng.random() < .6 else [0., 0.],
                    'a': [rng.uniform(-.03, .03), rng.uniform(-.03, .03)] if rng.random() < .3 else [0., 0.], 'cp': np.ravel(cp), 'rad': np.ravel(rad)})
    try:
        e.ask('new', upd, ts, H, L, mode)
        p.reinitialize()
        for k in range(rng.randint(5, 9) if steps < 8 else 6):
            restart = 1 if k and rng.random() < .07 else 0
            recover = 1 if k and rng.random() < .1 else 0
            if restart:
                t = tprev = 0.
            first = abs(t) < 1e-9
            shift = rng.randint(0, min(3, max(L, steps)-steps)) if not first and rng.random() < .5 else 0
            t = round(t+shift*ts, 9)
            if rng.random() < .1:
                target = [rng.uniform(1, 3), rng.uniform(1, 3)]
            if k and mode != 1 and rng.random() < .5:
                state = [state[0]+rng.uniform(-.01, .01), state[1]+rng.uniform(-.01, .01)]
            block = k and rng.random() < .08 and 'classic' in kinds
            ob = [dict(o) for o in obs]
            if block:
                ob[kinds.index('classic')].update(x=[state[0], state[1]], v=[0., 0.], a=[0., 0.])
            for o, q in zip(env.obstacles, ob):
                q['avoid'] = rng.random() > .15
                if o.options['spline_traj']:
                    q['c'] = np.asarray(o.options['spline_params']['coeffs'], dtype=float)
                    if rng.random() < .3:
                        q['c'] = q['c'] + rng.uniform(-.2, .2)
                        o.options['spline_params']['coeffs'] = q['c']
                else:
                    q['c'] = np.zeros((0, 2))
            args = []
            for q in ob:
                args += [[int(q['avoid'])], q['x'], q['v'], q['a'], [len(q['cp'])], q['cp'], [len(q['rad'])], q['rad'], [q['c'].size], q['c'].T]
            r = e.ask('update', shift, recover, restart, state, target, *args)
            # the same with the Python problem
            tau = 0. if first else upd
            for o, q in zip(env.obstacles, ob):
                x, w, a = np.array(q['x']), np.array(q['v']), np.array(q['a'])
                o.set_state({'position': x+tau*w+.5*tau*tau*a, 'velocity': w+tau*a, 'acceleration': a})
            v.set_terminal_conditions(list(target))
            with vlib.quiet():
                if first:
                    v.set_initial_conditions(list(state))
                    p.current_time_prev = 0.
                elif mode == 2:
                    v.prediction['state'] = np.array(state)
                    v.prediction['input'] = v.trajectories['input'][:, steps+shift]
                else:
                    p.predict(t, upd, ts, [np.array(state)], delay=shift)
                p.current_time_prev = tprev
                if first and not began:
                    p.reinitialize()
                if not began:
                    q = p.father.problem_description
                    import casadi
                    fg = casadi.Function('fg', [q['var'], q['par']], [q['obj'], q['con']])
                p.problem.force = {'x0': r['x0'], 'lbg': r['lb'], 'ubg': r['ub']}
                p.solve(t, upd)
            asked = p.problem.asked
            fresh = bool(first or recover)
            s = {'first': bool(first), 'fresh': fresh, 'shift': shift, 'ok': bool(r['ok'][0]), 'okP': p.problem.stats()['return_status'] == 'Solve_Succeeded',
                 't': big(r['t'][0], 10**6)[0], 'prev': big(r['t'][1], 10**6)[0], 'restart': bool(restart), 'block': bool(block), 'recover': bool(recover),
                 'p': big(r['p']), 'pP': big(asked['p']), 'avoid': [bool(q['avoid']) for q in ob],
                 'line': big([state, v.prediction['state'], target])}
            lb, ub, lbP, ubP = np.array(r['lb']), np.array(r['ub']), asked['lbg'].copy(), asked['ubg'].copy()
            own, cnt = np.zeros(len(lbP), int), 0
            for c in p.father.children.values():
                for name, con in c._constraints.items():
                    n = con[0].size(1)
                    for j, o in enumerate(env.obstacles):
                        if c is o:
                            own[cnt:cnt+n] = j+1
                    cnt += n
            s['own'] = [int(x) for x in own]
            s['lb'], s['ub'], s['lbP'], s['ubP'] = big(lb), big(ub), big(lbP), big(ubP)
            # the splines that are moved on; if the guess is made anew, those of the vehicle
            cnt, keep = 0, []
            for c in p.father.children.values():
                for name, var in c._variables.items():
                    n = var.size(1)*var.size(2)
                    if (c is v and name == 'splines_seg0') or not (fresh and began):
                        keep += list(range(cnt, cnt+n)) if 'seg0' in name or k == 0 else []
                    cnt += n
            x0, x0P = np.array(r['x0'])[keep], asked['x0'][keep]
            if fresh and began:
                x0P = np.ravel(v.get_init_spline_value()[0].T)
            s['x0'], s['x0P'] = big(x0), big(x0P)
            s['cost'] = []
            for x in (r['x'], p.father._var_result.cat):
                f, g = [np.array(y).ravel() for y in fg(x, asked['p'])]
                s['cost'].append([big(f)[0], big(max(np.max(g-ub), np.max(lb-g)))[0]])
            if s['ok'] and s['okP']:
                mine = np.array(p.father.get_variables(v, 'splines_seg0', spline=False)).T.ravel()
                tau = max(0., p.time_since_knot(t))
                tt = np.linspace(tau, H, 21)/H
                s['c'], s['cP'] = [big(np.ravel([BSpline(v.basis, np.array(q[k*13:k*13+13]))(tt) for k in range(2)])) for q in (r['c'], mine)]
            else:
                s['c'], s['cP'] = [], []
            p.father.set_variables(np.array(r['x']))
            if s['ok']:
                with vlib.quiet():
                    p.store(t, upd, ts)
                n = min(L, v.trajectories['state'].shape[1])
                s['traj'] = big([r['state'], r['input']]) if n == L else big([r['state'][:2*n], r['input'][:2*n]])
                s['trajP'] = big([v.trajectories['state'][:, :n].T, v.trajectories['input'][:, :n].T])
                if mode != 2:
                    state = list(v.trajectories['state'][:, 0])
            else:
                s['traj'] = s['trajP'] = []
            rec['steps'].append(s)
            began = True
            tprev = t
            if s['ok']:
                t = round(t+upd, 9)
                # the time that goes by until the next update
                for q in obs:
                    x, w, a = np.array(q['x']), np.array(q['v']), np.array(q['a'])
                    q['x'], q['v'] = list(x+upd*w+.5*upd*upd*a), list(w+upd*a)
                if mode != 2:
                    state = list(v.trajectories['state'][:, 0])
                else:
                    state = list(v.trajectories['state'][:, min(steps, v.trajectories['state'].shape[1]-1)])
            elif first:
                break
    except RuntimeError as ex:
        rec['died'] = str(ex)[-500:]
    finally:
        e.close()
    return rec


def units(rng, og, exe, d, key):
    out = []
    e = cppx.Exe(exe, d)
    try:
        for k in range(6):
            a, b = rng.uniform(-1, .5), rng.uniform(-2, 2)
            ts = rng.choice([.1, .05, .02])
            m = rng.choice([1, 2, 3, 5, 6, 7, 10])
            T, shift, mode = m*ts, rng.randint(0, 2), rng.choice([0, 0, 0, 1, 2])
            n = m+shift+1+rng.randint(0, 2)
            s0 = [rng.uniform(-2, 2), rng.uniform(-2, 2)]
            st = np.array([[rng.uniform(-2, 2), rng.uniform(-2, 2)] for _ in range(n)])
            w = rng.uniform(1, 6)
            u = np.array([[math.sin(w*j*ts), math.cos(w*j*ts)+.2*j*ts] for j in range(n)])
            r = e.ask('integrate', a, b, ts, T, n, shift, mode, s0, st, u)
            v = og.Holonomic()
            v.ode = lambda x, q: np.array([a*x[0]-b*x[1]+q[0], b*x[0]+a*x[1]+q[1]])
            ps = {0: v.integrate_ode(np.array(s0), u[shift:].T, T, ts)[:, -1], 1: st[m+shift], 2: np.array(s0)}[mode]
            out.append({'type': 'predict', 'mode': mode, 'ps': big(r['ps']), 'psP': big(ps), 'pi': big(r['pi']), 'piP': big(u[m+shift]), 'm': m, 'case': dict(key, unit=k)})
        from omgtools.basics.spline import BSpline, BSplineBasis
        basis = BSplineBasis(np.r_[0.]*1 if False else np.r_[np.zeros(3), np.linspace(0, 1, 11), np.ones(3)], 3)
        for k in range(4):
            T, der = rng.choice([1., 4., 10.]), rng.randint(0, 3)
            c = np.array([[rng.uniform(-2, 2) for _ in range(13)] for _ in range(2)])
            t = [0., T, T/10, T*.3] + [rng.uniform(0, T) for _ in range(6)]
            if der == 3:    # jumps at the knots
                t = [x for x in t if abs(x*10/T-round(x*10/T)) > 1e-3]
            r = e.ask('sample', T, der, len(t), c, t)
            want = []
            for x in t:
                for q in c:
                    want.append(float(BSpline(basis, q).derivative(der)(x/T)/T**der) if der else float(BSpline(basis, q)(x/T)))
            out.append({'type': 'sample', 'der': der, 'r': big(r['r'], 1000), 'rP': big(want, 1000), 'case': dict(key, unit=k)})
    except RuntimeError as ex:
        out.append({'type': 'fail', 'what': 'died', 'text': str(ex)[-300:], 'case': key})
    finally:
        e.close()
    return out


def job(a):
    key, seed = a
    if key == 'admm':
        return admmx.spell(random.Random(seed), {'key': key, 'seed': seed})
    return spell(random.Random(seed), {'key': key, 'seed': seed})


def run(ctx):
    ctx.assumptions += ['the exported sources are compiled with checks of memory accesses and of missing return values',
                        'vehicles of the type that is shipped with the export (holonomic, 10 knot intervals)']
    inv = 'Placed Window InStep Foreseen InBounds'
    for k, (sh, K, U, n) in enumerate([(1, 3, 2, 8), (2, 2, 5, 12)] if ctx.quick else [(1, 3, 2, 14), (2, 2, 5, 20), (3, 5, 3, 14)]):
        ctx.design('ExportModel', DESIGN % (sh, K, U, n, 'none', inv), name='ExportModel%d' % k, workers=4)
    for bug in ('rows', 'once', 'first', 'long', 'retry'):
        r = ctx.tlc('ExportModel', DESIGN % (4, 2, 5, 12, bug, inv), name='ExportModel_'+bug, workers=2)
        if 'is violated' not in r['out']:
            raise vlib.MachineryError('the model of the export does not see "%s"' % bug)
    js = [('p2p', ctx.rng.randint(0, 10**9)) for _ in range(10 if ctx.quick else 110)]
    js += [('admm', ctx.rng.randint(0, 10**9)) for _ in range(4 if ctx.quick else 50)]
    js.sort()
    recs = []
    for j, (st, r) in zip(js, vlib.parallel(job, js, 8, 600)):
        if st != 'ok':
            ctx.violation('exp.crash', str(r)[-900:], {'key': j[0], 'seed': j[1]})
            continue
        recs += r
    ctx.count = {k: sum(1 for r in recs if r['type'] == k) for k in ('run', 'admm', 'predict', 'sample', 'fail')}
    ctx.evals = sum(len(r['steps']) if r['type'] == 'run' else len(r['its']) if r['type'] == 'admm' else 1 for r in recs)
    ctx.judge('ExportTrace', [r for r in recs if r['type'] != 'admm'], shards=8)
    # the exported distributed problems keep to the protocol of the Python ones
    ctx.judge('ADMMTrace', [r for r in recs if r['type'] == 'admm'], name='ExportADMM', shards=4)


if __name__ == '__main__':
    vlib.main('C17', run)
