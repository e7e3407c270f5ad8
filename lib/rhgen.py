"""Random schedules of receding horizon runs: which vehicle, clock, horizon, and what happens when"""


def obstacle(rng, dim):
    ini = {'position': [round(rng.uniform(-6, 6), 2) for _ in range(dim)],
           'velocity': [round(rng.uniform(-.5, .5), 2) for _ in range(dim)]}
    if rng.random() < .3:
        ini['acceleration'] = [round(rng.uniform(-.2, .2), 2) for _ in range(dim)]
    o = {'initial': ini, 'avoid': rng.random() < .5}
    if rng.random() < .4:
        o['traj'] = {'velocity': {'time': [round(rng.uniform(.1, 2.), 2)],
                                  'values': [[round(rng.uniform(-.5, .5), 2) for _ in range(dim)]]}}
    return o


# horizon (s), knot intervals, sample time (ms), update (samples)
FIXED = [(4.0, 5, 20, 5), (2.0, 10, 10, 10), (1.8, 3, 20, 30), (1.8, 9, 20, 10), (3.0, 10, 100, 3),
         (1.005, 5, 15, 4), (2.0, 10, 10, 29), (3.0, 5, 50, 6), (2.0, 7, 20, 3), (6.0, 4, 100, 7),
         (2.0, 10, 20, 25), (1.2, 6, 10, 20), (1.4, 2, 10, 57), (3.0, 3, 20, 35), (10., 10, 100, 1),
         (2.4, 8, 100, 3), (2.1, 3, 70, 10), (1.5, 10, 10, 15), (2.0, 4, 10, 7), (0.7, 7, 10, 10)]


def times_left(rng, u, upd):
    """motion times the solver comes up with: plenty of time, or almost there"""
    if upd > 3 and rng.random() < .4:
        return [round(rng.uniform(2.02*u, 3.6*u), 4) for _ in range(4)]
    return [round(rng.uniform(2.5*u + .3, 2.5*u + 1.5), 4) for _ in range(4)]


def schedule(rng, cfg, length, free=False):
    """a list of actions that stay on the plan"""
    acts = []
    room = None
    upd = cfg['upd']
    Ts = cfg['Ts_ms']/1000.
    kt = cfg['horizon']/cfg['ki'] if not free else 0
    maxn = int((cfg['horizon']-kt)/Ts) - 1 if not free else int(min(cfg['Ts_set'])/Ts) - 1
    regular = rng.random() < .5
    n_seg = 0
    for _ in range(length):
        r = rng.random()
        if regular:
            n = upd
        elif r < .6:
            n = upd
        elif r < .85:
            n = rng.randint(upd, max(upd, min(maxn, 3*upd)))
        else:
            n = rng.randint(1, upd)
        n = max(1, min(n, maxn))
        acts.append(('step', n))
        n_seg += 1
        if n_seg > 2 and rng.random() < .12:
            what = rng.choice(['sleep', 'goal', 'over', 'plain', 'once', 'hard', 'run', 'run'])
            if what == 'sleep':
                acts.append(('sleep', rng.randint(1, 40)))
            if what == 'over':
                acts.append(('overrule',))
            if what != 'plain':
                acts.append(('newgoal',))
            if what == 'once':
                acts.append(('once',))
            if what == 'hard':
                acts.append(('once', rng.randint(1, max(1, min(maxn, 3*upd)))))
            if what == 'run' and upd <= maxn:
                acts.append(('run', rng.randint(1, 4)))
            if what in ('once', 'hard', 'run') and rng.random() < .5:
                acts.append(('newgoal',))
            acts.append(('restart',))
            n_seg = 0
    return acts


def jobs(rng, count, mode, length, vehicles=('Holonomic',), obst=True):
    out = []
    for k in range(count):
        if mode == 'fixed':
            H, ki, ts, upd = FIXED[k % len(FIXED)]
            cfg = {'Ts_ms': ts, 'upd': upd, 'mode': 'fixed', 'ki': ki, 'horizon': H, 'late': k % 7 == 3}
        else:
            ts = rng.choice([10, 20, 50])
            upd = rng.choice([1, 2, 5, 10, 7])
            cfg = {'Ts_ms': ts, 'upd': upd, 'mode': 'free', 'ki': rng.choice([3, 5, 8]),
                   'Ts_set': times_left(rng, upd*ts/1000., upd)}
        cfg['idealp'], cfg['idealu'] = [(False, False), (True, False), (True, True), (False, True)][k % 4 if k % 3 else 0]
        cfg['vehicle'] = vehicles[k % len(vehicles)]
        cfg['nveh'] = 2 if k % 5 == 4 else 1
        dim = 3 if '3D' in cfg['vehicle'] else 2
        if obst and k % 2:
            cfg['obstacles'] = [obstacle(rng, dim) for _ in range(rng.randint(1, 2))]
        out.append((cfg, rng.randint(0, 10**9), schedule(rng, cfg, length, mode == 'free')))
    return out


def dep_jobs(rng, count, length):
    """the deployer without simulator: any start time, measured or enforced states, late updates, resets"""
    out = []
    for k in range(count):
        if k % 3 != 2:
            H, ki, ts, upd = FIXED[k % len(FIXED)]
            cfg = {'Ts_ms': ts, 'upd': upd, 'mode': 'fixed', 'ki': ki, 'horizon': H}
            maxn = int((H - H/ki)/(ts/1000.)) - 1
        else:
            ts, upd = rng.choice([10, 20, 50]), rng.choice([1, 2, 5, 10])
            cfg = {'Ts_ms': ts, 'upd': upd, 'mode': 'free', 'ki': rng.choice([3, 5, 8]),
                   'Ts_set': times_left(rng, upd*ts/1000., upd)}
            maxn = int(min(cfg['Ts_set'])/(ts/1000.)) - 1
        if maxn <= upd:
            cfg['upd'] = upd = max(1, maxn//2)
        cfg.update({'deploy': True, 'start': rng.choice([0, 0, 1, 7, 100, 333]), 'vehicle': 'Holonomic',
                    'nveh': 2 if k % 4 == 3 else 1, 'idealu': False, 'idealp': k % 5 == 4})
        acts = [('dep', 0, 'meas')]
        for _ in range(length):
            r = rng.random()
            n = upd if r < .5 else rng.randint(upd, max(upd, min(maxn, 4*upd)))
            how = 'meas' if rng.random() < .8 else rng.choice(['enforce', 'enforce2'])
            if rng.random() < .1:
                acts.append(('newgoal',))
            if rng.random() < .08:
                acts.append(('depreset',))
            acts.append(('dep', n, how))
        out.append((cfg, rng.randint(0, 10**9), acts))
    return out
