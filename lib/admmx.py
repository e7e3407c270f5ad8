"""The exported distributed problems: a fleet of exported agents, iterated and exchanged, recorded as
the iterations of the Python ones are (see admm.py), to be judged by the same specification."""
import os
import shutil
import tempfile
import numpy as np
import admm
import cppx
import vlib
from vlib import fix

SC = admm.SC


def draw(rng):
    return {'kind': rng.choice(['admm', 'admm', 'rdv']), 'vehicle': 'Holonomic', 'N': rng.choice([2, 3, 3, 4]), 'inter': rng.choice(['full', 'circular']),
            'ki': 10, 'H': rng.choice([5., 10., 4.]), 'rho': rng.choice([(1, 2), (2, 1), (1, 1), (5, 1), (1, 4)]), 'init_iter': rng.choice([0, 1, 2, 3, 5]),
            'max_iter': 1, 'Ts_ms': 10, 'upd': 10, 'obst': rng.random() < .3, 'separate': rng.random() < .15, 'mixed': rng.random() < .15}


def spell(rng, key, cfg=None):
    cfg = cfg or draw(rng)
    admm.setup()
    from omgtools.basics.optilayer import OptiChild
    OptiChild._labels = []
    d = tempfile.mkdtemp(prefix='omgverif_cpp_') + '/'
    here = os.getcwd()
    try:
        os.chdir(d)
        ns = rng.choice(['omg', 'omg', 'fleet'])
        cls = {'admm': 'FormationPoint2Point', 'rdv': 'RendezVous'}[cfg['kind']]
        with vlib.quiet():
            F = admm.Fleet(cfg, rng)
            F.p.father = None       # it is built: no need to do it again
            F.p.export({'directory': d, 'casadiobj': d+'bin/', 'namespace': ns})
        # which folder each agent's program is in
        where = {}
        for k, u in enumerate(F.ups):
            if cfg['separate']:
                where.setdefault(d+str(u)+'/', []).append(k)
            else:
                groups = F.p.separate_per_build()
                one = len(groups) == 1 and len(list(groups.values())[0]) == 1
                for ty, g in groups.items():
                    for n, us in g.items():
                        if u in us:
                            where.setdefault(d if one else d+'%s_%snghb/' % (ty, n), []).append(k)
        exes = {}
        for q in where:
            exe, err = cppx.build(q, ['Holonomic_'+ns+'.cpp'], cppx.admm_main(cls, ns))
            if exe is None:
                return [{'type': 'fail', 'what': 'build', 'text': err[-300:], 'case': key}]
            exes[q] = exe
        out = []
        for h in range(2):
            out += history(rng, F, cfg, {q: (exes[q], w) for q, w in where.items()}, cls, dict(key, cfg=cfg, history=h))
        return out
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def history(rng, F, cfg, where, cls, key):
    N, H, ki = cfg['N'], cfg['H'], cfg['ki']
    upd_ms, ts_ms = rng.choice([(100, 10), (300, 100), (500, 100), (200, 50), (600, 200), (400, 100)])
    steps = upd_ms//ts_ms
    L = min(rng.choice([1, steps, steps+3]), int(H*1000/ts_ms))
    how = rng.choice([0, 1, 2])
    rho = cfg['rho'] if how else rng.choice([(1, 2), (2, 1), (3, 1)])
    init = cfg['init_iter'] if how == 2 else rng.choice([0, 1, 2, 4])
    nb = F.nbs()
    exe, prog = {}, {}
    rec = {'kind': cfg['kind'], 'N': N, 'nd': len(F.dims), 'n': len(F.basis), 'deg': F.deg, 'H': fix(H, 1e6), 'ki': ki, 'rhoN': rho[0], 'rhoD': rho[1],
           'inter': cfg['inter'], 'nb': [[j+1 for j in n] for n in nb], 'acc': False, 'ama': False, 'eta': False, 'its': [], 'obj': [], 'case': key}
    other = []
    mode = rng.choice([0, 0, 1])
    try:
        for k, (q, (path, agents)) in enumerate(where.items()):
            e = cppx.Exe(path, q)
            exe[k] = e
            e.ask('new', len(agents), upd_ms/1000., ts_ms/1000., H, L, init, rho[0]/float(rho[1]), how, mode)
            for m, a in enumerate(agents):
                prog[a] = (e, m, F.ups[agents[0]])
        pos = [[rng.uniform(-2, 2), rng.uniform(-2, 2)] for _ in range(N)]
        end = [[rng.uniform(-2, 2), rng.uniform(-2, 2)] for _ in range(N)]
        Ln = F.name(F.ups[0])[2]
        zero = lambda: [[0.]*Ln for _ in nb[0]]
        zij, lij = [zero() for _ in nb], [zero() for _ in nb]
        kept = None
        us = prev = 0
        plan = None
        for it in range(init+rng.randint(4, 7)):
            shift = rng.randint(1, 2) if us and rng.random() < .3 and L >= steps+2 else 0
            us += shift*ts_ms*1000
            passed = (us*ki)//fix(H, 1e6) - (prev*ki)//fix(H, 1e6)
            K = H/ki
            t = us/1e6 - (us*ki//fix(H, 1e6))*K
            tau = t/H
            q = {'t': fix(t, 1e6), 'us': us, 'passed': passed, 'rho': fix(rho[0]/float(rho[1]), SC), 'nres': 1, 'reset': 0, 'seen': [], 'before': [], 'after': []}
            one = []
            for a in range(N):
                e, m, u = prog[a]
                # what the neighbours last said: neighbour b's copy for me
                zji = [zij[b][nb[b].index(a)] for b in nb[a]]
                lji = [lij[b][nb[b].index(a)] for b in nb[a]]
                r = e.ask('one', m, shift, pos[a], end[a], F.vehicles[a].rel_pos_c, zji, lji, *([[6., 6.]] if cfg['obst'] else []))
                one.append(r)
                if not r['ok'][0]:
                    raise StopIteration     # nothing to be coordinated
                f = u.father_updx
                P, V = f._par_struct(np.array(r['p'])), f._var_struct(np.array(r['x']))
                g = lambda nm: np.ravel(np.array(P[u.label, nm], float))
                veh = u.vehicle
                cs = np.array(V[veh.label, 'splines_seg0'], float)
                if cfg['kind'] == 'rdv':
                    x = np.ravel(np.array(V[u.problem.label, 'conT0'], float)) + np.array(F.vehicles[a].rel_pos_c)
                else:
                    x = np.array([cs[:, c] + F.vehicles[a].rel_pos_c[c] for c in range(2)]).ravel()
                s = {'t': fix(np.ravel(np.array(P[u.problem.label, 't']))[0], 1e6), 'T': fix(np.ravel(np.array(P[u.problem.label, 'T']))[0], 1e6),
                     'rho': fix(g('rho')[0], SC), 'calls': 1, 'x': admm.I(F.fwd(x, tau))}
                for nm in ('z_i', 'l_i'):
                    s[nm] = admm.I(F.fwd(g(nm), tau))
                for nm in ('z_ji', 'l_ji'):
                    s[nm] = [admm.I(F.fwd(w, tau)) for w in g(nm).reshape(len(nb[a]), Ln)]
                q['seen'].append(s)
                # where the plan starts: what the agent measured, moved on with the inputs it was following
                n = max(L, steps) + 1
                start = np.ravel(np.array(P[veh.label, 'state0'], float))
                want = np.array(pos[a])
                if us:
                    w = plan[a]
                    j = steps+shift
                    want = w['state'][j] if mode == 1 else want + np.trapz(w['input'][shift:j+1], dx=ts_ms/1000., axis=0)
                if not us or max(L, steps) >= steps+shift:
                    other.append({'type': 'predict', 'mode': mode, 'm': steps, 'ps': [fix(c, 1e5) for c in start], 'psP': [fix(c, 1e5) for c in want],
                                  'pi': [], 'piP': [], 'case': key})
            xs = [np.array(r['x_i']) for r in one]
            for a in range(N):
                if kept is None:        # the first guess is its own
                    b = {k: q['seen'][a][k] for k in ('z_i', 'l_i', 'z_ji', 'l_ji')}
                    b['z_ij'] = b['l_ij'] = [[0]*Ln for _ in nb[a]]
                else:
                    b = {k: admm.I(F.fwd(kept[a][k], tau, passed)) for k in ('z_i', 'l_i')}
                    for k, own in (('z_ij', zij), ('l_ij', lij)):
                        b[k] = [admm.I(F.fwd(w, tau, passed)) for w in own[a]]
                    for k, own in (('z_ji', zij), ('l_ji', lij)):
                        b[k] = [admm.I(F.fwd(own[c][nb[c].index(a)], tau, passed)) for c in nb[a]]
                q['before'].append(b)
            two = []
            for a in range(N):
                e, m, u = prog[a]
                two.append(e.ask('two', m, [xs[b] for b in nb[a]]))
            zij = [[np.array(w) for w in np.reshape(r['z'], (len(nb[a]), Ln))] for a, r in enumerate(two)]
            lij = [[np.array(w) for w in np.reshape(r['l'], (len(nb[a]), Ln))] for a, r in enumerate(two)]
            kept = [{k: np.array(r[k]) for k in ('x_i', 'z_i', 'l_i')} for r in two]
            for a in range(N):
                af = {k: admm.I(F.fwd(kept[a][k], tau)) for k in ('x_i', 'z_i', 'l_i')}
                af['z_ij'] = [admm.I(F.fwd(w, tau)) for w in zij[a]]
                af['l_ij'] = [admm.I(F.fwd(w, tau)) for w in lij[a]]
                af['x_j'] = [admm.I(F.fwd(w, tau)) for w in np.reshape(two[a]['x_j'], (len(nb[a]), Ln))]
                af['z_ji'] = [admm.I(F.fwd(zij[b][nb[b].index(a)], tau)) for b in nb[a]]
                af['l_ji'] = [admm.I(F.fwd(lij[b][nb[b].index(a)], tau)) for b in nb[a]]
                q['after'].append(af)
            tot = [max(sum(r['res'][c] for r in two), 0.) for c in range(3)]
            q['res'] = [fix(np.sqrt(tot[0]), 1000), fix(np.sqrt(tot[1]), 1000), fix(tot[2], 1000)]
            rec['its'].append(q)
            # plans as they were handed out
            prev = us
            if it >= init:
                us += upd_ms*1000
            plan = []
            for a in range(N):
                e, m, u = prog[a]
                cs = np.array(u.father_updx._var_struct(np.array(one[a]['x']))[u.vehicle.label, 'splines_seg0'], float)
                from scipy.interpolate import BSpline as SB
                n = max(L, steps)
                tt = np.clip((t + np.arange(n+1)*ts_ms/1000.)/H, 0, 1)
                st = np.array([SB(F.knots, cs[:, c], F.deg)(tt) for c in range(2)]).T
                inp = np.array([SB(F.knots, cs[:, c], F.deg).derivative()(tt)/H for c in range(2)]).T
                plan.append({'state': st, 'input': inp})
                other.append({'type': 'predict', 'mode': mode, 'm': 0, 'ps': [fix(c, 1e5) for c in one[a]['state']], 'psP': [fix(c, 1e5) for c in st[:L].ravel()],
                              'pi': [fix(c, 1e5) for c in one[a]['input']], 'piP': [fix(c, 1e5) for c in inp[:L].ravel()], 'case': key})
                if it >= init:
                    pos[a] = [c + (rng.uniform(-.01, .01) if mode == 0 else 0.) for c in st[0]]
    except StopIteration:
        pass
    except RuntimeError as ex:
        other.append({'type': 'fail', 'what': 'died', 'text': str(ex)[-400:], 'case': key})
    finally:
        for e in exe.values():
            e.close()
    return [dict(rec, type='admm')] + other
