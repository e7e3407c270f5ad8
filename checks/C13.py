"""The modelling layer: what is modelled is what is solved."""
import random
import re
import numpy as np
import vlib

og = None
INF = 10**9
DESIGN = '''SPECIFICATION Spec
CONSTANTS Stems={"a","b"} Names={"x","y"} NOBJ=%d
INVARIANTS Distinct NoneLost Meaning Reason
CHECK_DEADLOCK FALSE
'''


def setup():
    global og
    if og is None:
        vlib.import_repo()
        import omgtools
        og = omgtools


def ints(v):
    """whole numbers, column by column; anything else is kept apart"""
    out = []
    for x in np.array(v, float).flatten(order='F'):
        if not np.isfinite(x) or abs(x) > INF:
            out.append(INF if x > 0 else (-INF if x < 0 else 44449))
        elif abs(x - round(x)) > 1e-6:
            out.append(44443)
        else:
            out.append(int(round(x)))
    return out


def make_basis(rng):
    from omgtools.basics.spline import BSplineBasis
    d = rng.choice([1, 2, 3])
    n = rng.randint(1, 3)
    return BSplineBasis(np.r_[np.zeros(d), np.linspace(0., 1., n+1), np.ones(d)], d)


def job_model(rng, case):
    from omgtools.basics.optilayer import OptiChild, OptiFather
    from casadi import MX
    import casadi

    class Child(OptiChild):
        given = {}

        def set_parameters(self, time):
            return self.given
    nobj = rng.randint(1, 4)
    stem = rng.choice(['obj', 'thing', 'p2p'])
    C = [Child(stem) for _ in range(nobj)]
    bases = [make_basis(rng) for _ in range(2)]
    if rng.random() < .4:
        # as many coefficients, other knots
        kn, d = np.array(bases[0].knots), bases[0].degree
        if len(kn) > 2*d+2:
            kn[d+1:-d-1] = kn[d+1:-d-1]**2
            bases[1] = type(bases[0])(kn, d)
    for c in C:
        c.basis = bases[0]
    ents, H = [], []                # H: what the define call returned: MX or list of splines
    taken = {}
    pool = ['x', 'y', 'T', 't', 'pos', 'splines_seg0', 'splines_seg1', 'splines_seg2', 'splines_seg10', 'splines_seg12', 'eps_seg1_2', 'g', 'w0']

    def declare(o, n):
        par = rng.random() < .4
        spl = n.startswith(('splines', 'eps', 'g')) and rng.random() < .9
        if spl:
            b = rng.choice(bases)
            cols = rng.randint(1, 2)
            shape = (len(b), cols)
        else:
            shape = (rng.randint(1, 3), rng.choice([1, 1, 2]))
        val = np.array([[float(rng.randint(-9, 9)) for _ in range(shape[1])] for _ in range(shape[0])])
        kw = {'value': val} if rng.random() < .7 else {}
        if spl:
            if b is not bases[0] or rng.random() < .5:
                kw['basis'] = b
            h = (C[o].define_spline_parameter if par else C[o].define_spline_variable)(n, cols, **kw)
        else:
            h = (C[o].define_parameter if par else C[o].define_variable)(n, shape[0], shape[1], **kw)
        if 'value' not in kw:
            val = np.zeros(shape)
            if rng.random() < .3:
                val = np.array([[float(rng.randint(-9, 9)) for _ in range(shape[1])] for _ in range(shape[0])])
                C[o].set_value(n, val)
        m = re.search('seg([0-9]+)', n)
        ents.append({'o': o+1, 'n': n, 'par': par, 'spl': len(b) if spl else 0, 'seg': int(m.group(1)) if m else -1, 'val': ints(val),
                     'shape': shape, 'basis': b if spl else None})
        H.append(h)
        taken.setdefault(n, []).append(len(ents)-1)
    for o in range(nobj):
        for n in rng.sample(pool, rng.randint(1, 4)):
            if n in taken and rng.random() < .7:
                continue
            declare(o, n)
    if not any(not e['par'] for e in ents):
        declare(0, 'x_more') if False else None
        o = 0
        h = C[o].define_variable('zz', 2)
        ents.append({'o': 1, 'n': 'zz', 'par': False, 'spl': 0, 'seg': -1, 'val': [0, 0], 'shape': (2, 1), 'basis': None})
        H.append(h)
        taken['zz'] = [len(ents)-1]
    # mentions: by name, of what another one (or nobody, or several) defines
    ments, M = [], {}
    wild = rng.random() < .2
    names = [n for n in taken if wild or len(taken[n]) == 1]
    for o in range(nobj):
        for n in rng.sample(names, min(len(names), rng.randint(0, 2))):
            e = taken[n][0]
            if any(ents[k]['o'] == o+1 for k in taken[n]):
                continue
            if ents[e]['spl']:
                h = C[o].define_spline_symbol(n, ents[e]['shape'][1], basis=ents[e]['basis'])
            else:
                h = C[o].define_symbol(n, *ents[e]['shape'])
            ments.append({'o': o+1, 'n': n})
            M[(o, n)] = h
    if rng.random() < .1:
        o = rng.randrange(nobj)
        C[o].define_symbol('nobody')
        ments.append({'o': o+1, 'n': 'nobody'})

    def near(o):
        """entities an object can write about: (entity, mention?, handle)"""
        return [(k, False, H[k]) for k, e in enumerate(ents) if e['o'] == o+1] + \
               [(taken[n][0], True, h) for (p, n), h in M.items() if p == o]

    def atom(o):
        k, sym, h = rng.choice(near(o))
        e = ents[k]
        r, c = rng.randrange(e['shape'][0]), rng.randrange(e['shape'][1])
        mx = h[c].coeffs[r] if e['spl'] else h[r, c]
        return mx, {'n': e['n'], 'o': e['o'], 'sym': sym, 'i': c*e['shape'][0]+r+1}

    def expr(o):
        tot, terms = 0., []
        for _ in range(rng.randint(1, 3)):
            cf = rng.choice([-3, -2, -1, 1, 2, 3])
            mx, fs = float(cf), []
            for _ in range(rng.choice([1, 1, 2])):
                a, f = atom(o)
                mx, fs = mx*a, fs + [f]
            tot = tot + mx
            terms.append({'c': cf, 'f': fs})
        if rng.random() < .4:
            cf = rng.randint(-5, 5)
            tot = tot + float(cf)
            terms.append({'c': cf, 'f': []})
        return tot, terms
    cons, objs, subs, cname = [], [], [], []
    for o in range(nobj):
        if not near(o):
            continue
        for _ in range(rng.randint(0, 4)):
            lb, ub = rng.choice([(-INF, 0), (0, 0), (-3, 4), (1, INF)])
            f = lambda v: -np.inf if v == -INF else (np.inf if v == INF else float(v))
            shut, at = ('', 0) if rng.random() < .6 else (rng.choice(['>', '<', '>=']), rng.randint(0, 6))
            kw = {'shutdown': 't %s %s' % (shut, at*.5)} if shut else {}
            if rng.random() < .3:
                kw['name'] = rng.choice(['con', 'lim'])
            sp = [(k, s, h) for k, s, h in near(o) if ents[k]['spl']]
            if sp and rng.random() < .6:
                k, s, h = rng.choice(sp)
                same = [q for q in sp if ents[q[0]]['basis'] is ents[k]['basis']]
                parts = [(rng.choice([-2, -1, 1, 2]),) + rng.choice(same) for _ in range(rng.randint(1, 2))]
                cs = [rng.randrange(ents[p[1]]['shape'][1]) for p in parts]
                S, rows = None, [[] for _ in range(ents[k]['spl'])]
                for (cf, kk, ss, hh), c in zip(parts, cs):
                    q = cf*hh[c]
                    S = q if S is None else S + q
                    for j in range(ents[k]['spl']):
                        rows[j].append({'c': cf, 'f': [{'n': ents[kk]['n'], 'o': ents[kk]['o'], 'sym': ss, 'i': c*ents[kk]['spl']+j+1}]})
                if rng.random() < .3:
                    a, fa = atom(o)
                    S = a*S
                    for row in rows:
                        for t in row:
                            t['f'].append(fa)
                if rng.random() < .3:
                    sk = rng.choice([[1, 0], [0, 1], [1, 1]])
                    kw['skip'] = sk
                    rows = rows[sk[0]:len(rows)-sk[1]]
                    if not rows:
                        continue
                C[o].define_constraint(S, f(lb), f(ub), **kw)
            elif rng.random() < .3:
                E = [expr(o) for _ in range(2)]
                C[o].define_constraint(casadi.vertcat(E[0][0], E[1][0]), f(lb), f(ub), **kw)
                rows = [E[0][1], E[1][1]]
            else:
                mx, terms = expr(o)
                C[o].define_constraint(mx, f(lb), f(ub), **kw)
                rows = [terms]
            cons.append({'o': o+1, 'rows': rows, 'lb': lb, 'ub': ub, 'shut': shut, 'at': at})
            cname.append(list(C[o]._constraints)[-1])
        for _ in range(rng.randint(0, 2)):
            mx, terms = expr(o)
            C[o].define_objective(mx)
            objs.append({'o': o+1, 'e': terms})
        if rng.random() < .4:
            E = [expr(o) for _ in range(rng.randint(1, 3))]
            n = 'sub%d' % rng.randrange(3)
            C[o].define_substitute(n, casadi.vertcat(*[e[0] for e in E]))
            subs.append({'o': o+1, 'n': n, 'rows': [e[1] for e in E]})
        sp = [(k, q, h) for k, q, h in near(o) if ents[k]['spl']]
        if sp and rng.random() < .4:
            # spline substitutes, a list of them
            S, R = [], []
            for _ in range(rng.randint(1, 2)):
                k, q, h = rng.choice(sp)
                c, cf = rng.randrange(ents[k]['shape'][1]), rng.choice([-2, -1, 1, 2])
                S.append(cf*h[c])
                R.append([[{'c': cf, 'f': [{'n': ents[k]['n'], 'o': ents[k]['o'], 'sym': q, 'i': c*ents[k]['spl']+j+1}]}] for j in range(ents[k]['spl'])])
            if rng.random() < .5:
                C[o].define_substitute('fc', S)
                subs += [{'o': o+1, 'n': 'fc%d' % l, 'rows': x} for l, x in enumerate(R)]
            else:
                C[o].define_substitute('fc', S[0])
                subs.append({'o': o+1, 'n': 'fc', 'rows': R[0]})
    if not any(c['o'] for c in cons):
        k = [k for k, e in enumerate(ents) if not e['par']][0]
        h = H[k][0].coeffs[0] if ents[k]['spl'] else H[k][0, 0]
        C[ents[k]['o']-1].define_constraint(h, -1., 1.)
        cname.append(list(C[ents[k]['o']-1]._constraints)[-1])
        cons.append({'o': ents[k]['o'], 'rows': [[{'c': 1, 'f': [{'n': ents[k]['n'], 'o': ents[k]['o'], 'sym': False, 'i': 1}]}]],
                     'lb': -1, 'ub': 1, 'shut': '', 'at': 0})
    order = list(range(nobj))
    rng.shuffle(order)
    rec = {'type': 'model', 'ents': [{k: e[k] for k in ('o', 'n', 'par', 'spl', 'seg', 'val')} for e in ents], 'ments': ments, 'cons': cons,
           'objs': objs, 'subs': subs, 'order': [o+1 for o in order], 'refused': False, 'acts': [], 'case': dict(case, key='model')}
    F = OptiFather()
    if rng.random() < .5:
        F = OptiFather([C[o] for o in order])
    else:
        for o in order:
            F.add(C[o])
    opt = {'verbose': 0, 'solver': 'ipopt', 'solver_options': {'ipopt': {'ipopt.print_level': 0, 'print_time': 0}}, 'codegen': {'build': None}}
    try:
        with vlib.quiet():
            solver, _ = F.construct_problem(opt)
    except ValueError as e:
        rec['refused'] = True
        rec['why'] = str(e)[:100]
        return [rec]
    oracle = solver.oracle()

    def values():
        out = []
        for e in ents:
            g = F.get_parameters if e['par'] else F.get_variables
            v = g(C[e['o']-1], e['n'])
            if e['spl']:
                ok = all(s.basis == e['basis'] for s in v)
                w = np.array(g(C[e['o']-1], e['n'], spline=False))
                v = np.array([s.coeffs for s in v]).T
                if not ok or not np.allclose(w, v):
                    v = np.full(e['shape'], .5)
            out.append(ints(v))
        return out

    def rnd(e):
        return np.array([[float(rng.randint(-9, 9)) for _ in range(e['shape'][1])] for _ in range(e['shape'][0])])
    tf = rng.random() < .5
    F.init_transformations((lambda b: b) if tf else (lambda b: None), lambda b: None)
    acts = rec['acts']
    acts.append({'a': 'init', 'vals': values()})
    t = 0.
    for _ in range(rng.randint(4, 10)):
        a = rng.choice(['set', 'set', 'all', 'par', 'par', 'eval', 'eval', 'bounds', 'subst', 'shift', 'asked', 'askedf'])
        d = {'a': a}
        if a == 'set':
            k = rng.choice([k for k, e in enumerate(ents) if not e['par']])
            e = ents[k]
            v = rnd(e)
            F.set_variables(v, C[e['o']-1], e['n'])
            d.update({'e': k+1, 'val': ints(v)})
        elif a == 'all':
            # as a solver returns them: one vector
            v = [rnd(e) for e in ents]
            vec = []
            for o in order:
                for n in C[o]._variables:
                    k = [k for k, e in enumerate(ents) if e['o'] == o+1 and e['n'] == n][0]
                    vec += list(v[k].flatten(order='F'))
            F.set_variables(np.array(vec))
            got = values()
            d['vals'] = [ints(x) for x in v]
            d['vals'] = [g if e['par'] else x for g, e, x in zip(got, ents, d['vals'])]
            # what is read back
            want = d['vals']
            acts.append(d)
            d = {'a': 'read'}
        elif a == 'par':
            given, who = [], {}
            for c in C:
                c.given = {}
            for k, e in enumerate(ents):
                if e['par'] and rng.random() < .6:
                    v = rnd(e)
                    giver = C[e['o']-1] if rng.random() < .6 else rng.choice(C)
                    if rng.random() < .5 and e['shape'][1] == 1 and e['shape'] != (1, 1):
                        val = v[:, 0]          # plain vectors do as well
                    else:
                        val = v
                    gd = dict(giver.given)
                    gd.setdefault(C[e['o']-1], {})
                    gd[C[e['o']-1]][e['n']] = val
                    giver.given = gd
                    given.append({'e': k+1, 'val': ints(v)})
            F.set_parameters(t)
            d['given'] = given
        elif a == 'eval':
            x, p = F.get_variables(), F.get_parameters()
            fv, gv = oracle(x, p)[:2]
            d.update({'g': ints(gv), 'f': ints(fv)[0]})
        elif a == 'bounds':
            tt = rng.randint(0, 7)
            lb, ub = F.update_bounds(tt*.5)
            d.update({'t': tt, 'lb': ints(lb.cat), 'ub': ints(ub.cat)})
        elif a == 'subst':
            if not subs:
                continue
            k = rng.randrange(len(subs))
            v = F.get_variables(C[subs[k]['o']-1], subs[k]['n'])
            d.update({'s': k+1, 'got': ints(v[0].coeffs if isinstance(v, list) else v)})
        elif a == 'asked':
            k = rng.randrange(len(cons))
            d.update({'c': k+1, 'got': ints(F.get_constraint(C[cons[k]['o']-1], cname[k]))})
        elif a == 'askedf':
            o = rng.choice(objs)['o'] if objs else 0
            if not o:
                continue
            d.update({'o': o, 'got': ints(F.get_objective(C[o-1], ''))[0]})
        elif a == 'shift':
            segs = sorted({e['seg'] for e in ents if e['seg'] >= 0} | {0, 1})
            segs = rng.sample(segs, rng.randint(1, len(segs)))
            fun = (lambda c, b, q: c + (100*len(b) if q == b else .5)) if tf else (lambda c, b: c + 100*len(b))
            r = rng.random()
            if r < .3:
                segs = [0]
                F.transform_primal_splines(fun)
            elif r < .5:
                segs = segs[:1]
                F.transform_primal_splines(fun, segs[0])
            else:
                F.transform_primal_splines(fun, segs)
            d['segs'] = segs
        d['vals'] = values()
        acts.append(d)
        if any(x in (44443, 44449) for v in d['vals'] for x in v):
            break                   # not what was meant, whatever it is
    return [rec]


def job_labels(rng, case):
    from omgtools.basics.optilayer import OptiChild
    u = ''.join(rng.choice('ghjk') for _ in range(12))      # nobody else uses these
    stems = [u + s for s in ('a', 'b', 'p2p')[:rng.randint(1, 3)]]
    asked, got = [], []
    for _ in range(rng.randint(3, 14)):
        s, k = rng.choice(stems), rng.choice([0, 0, 0, 1, 2, 9, 10])
        name = s if k == 0 and rng.random() < .6 else s + str(k)
        l = OptiChild(name).label
        m = re.match('^(.*?)([0-9]+)$', l)
        asked.append({'s': s, 'k': k})
        got.append({'s': m.group(1), 'k': int(m.group(2))} if m else {'s': l, 'k': -1})
    return [{'type': 'labels', 'asked': asked, 'got': got, 'case': dict(case, key='labels')}]


def job_clash(rng, case):
    from omgtools.basics.optilayer import OptiChild, OptiFather

    class Child(OptiChild):
        given = {}

        def set_parameters(self, time):
            return self.given
    C = [Child('cl') for _ in range(3)]
    for c in C:
        c.define_parameter('p')
        c.define_parameter('q')
    x = C[0].define_variable('x')
    C[0].define_constraint(x, 0., 1.)
    C[0].define_objective(x)
    F = OptiFather(C)
    opt = {'verbose': 0, 'solver': 'ipopt', 'solver_options': {'ipopt': {'ipopt.print_level': 0, 'print_time': 0}}, 'codegen': {'build': None}}
    with vlib.quiet():
        F.construct_problem(opt)
    seen, clash = set(), False
    for c in C:
        c.given = {}
        for d in C:
            for n in ('p', 'q'):
                if rng.random() < .2:
                    c.given.setdefault(d, {})[n] = 1.
                    clash = clash or (d.label, n) in seen
                    seen.add((d.label, n))
    try:
        F.set_parameters(0.)
        refused = False
    except ValueError:
        refused = True
    return [{'type': 'clash', 'clash': clash, 'refused': refused, 'case': dict(case, key='clash')}]


def job(a):
    setup()
    rng = random.Random(a[1])
    case = {'key': a[0], 'seed': a[1]}
    return {'model': job_model, 'labels': job_labels, 'clash': job_clash}[a[0]](rng, case)


def run(ctx):
    setup()
    ctx.design('LayerModel', DESIGN % (3 if ctx.quick else 4), workers=8)
    f = 1 if ctx.quick else 12
    jobs = []
    for fam, n in (('model', 400), ('labels', 60), ('clash', 40)):
        jobs += [(fam, ctx.rng.randrange(10**9)) for _ in range(n*f)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 200)):
        if st != 'ok':
            ctx.violation('raises.' + j[0], str(r)[-900:], {'key': j[0], 'job': list(j)})
        else:
            recs += r
    if not any(r['type'] == 'model' and not r['refused'] for r in recs):
        raise vlib.MachineryError('no problem was ever built')
    ctx.judge('LayerTrace', recs, shards=8)
    ctx.evals = sum(len(r.get('acts', [1])) for r in recs)
    for r in recs[:2]:
        ctx.sample({'objects': len(r.get('order', [])), 'entities': len(r.get('ents', [])), 'constraints': len(r.get('cons', [])), 'case': r['case']})


if __name__ == '__main__':
    vlib.main('C13', run)
