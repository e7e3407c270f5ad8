"""Splines are functions: every operation on them means what it means for the functions they stand for."""
import math
import random
import numpy as np
import vlib
from vlib import fix, fixl

og = S = X = None
U = 10**6


def setup():
    global og, S, X
    if og is None:
        vlib.import_repo()
        import omgtools
        from omgtools.basics import spline, spline_extra
        og, S, X = omgtools, spline, spline_extra


L = 100


def rknots(rng, d=None, kind=None, end=L, nmax=7):
    """a clamped knot sequence on the lattice 0..end"""
    d = rng.choice([1, 2, 2, 3, 3, 4]) if d is None else d
    kind = kind or rng.choice(['even', 'even', 'free', 'mult', 'none'])
    if kind == 'none':
        it = []
    elif kind == 'even':
        n = rng.choice([2, 4, 5, 10])
        it = [end*k//n for k in range(1, n)]
    else:
        it = sorted(rng.sample(range(4, end-3, 4), rng.randint(1, nmax)))
        if kind == 'mult':
            it = sorted(sum([[k]*rng.randint(1, d) for k in it[:4]], []))
    return [0]*(d+1) + it + [end]*(d+1), d


def basis(k, d, q=float(L)):
    return S.BSplineBasis(np.array(k, float)/q, d)


def coefs(rng, n, m=2.):
    r = rng.random()
    if r < .1:
        return [0. if rng.random() < .7 else 1. for _ in range(n)]
    return [round(rng.uniform(-m, m), 6) for _ in range(n)]


def spec(k, d, c, u=U):
    return {'k': list(k), 'd': d, 'c': [fix(v, u) for v in c]}


def back(s, q=L, u=U):
    """a spline of the code as one of the specification; knots must lie on the lattice"""
    k = np.asarray(s.basis.knots, float)*q
    if np.abs(k - np.round(k)).max() > 1e-6:
        raise AssertionError('knots off the lattice: %s' % (k/q,))
    return spec([int(v) for v in np.round(k)], s.basis.degree, np.asarray(s.coeffs, float).ravel(), u)


def pts(rng, lo, hi, n=14, avoid=()):
    p = set(rng.randint(lo, hi) for _ in range(n)) | {lo, hi-1 if hi-1 > lo else lo}
    return sorted(x for x in p if x not in avoid)


def inner(rng, k, d, lo=0, hi=L, n=14):
    """points where the spline has no jump"""
    jumps = [x for x in set(k) if k.count(x) > d and x not in (k[0], k[-1])]
    return pts(rng, lo, hi, n, jumps)


def job(args):
    seed, fam = args
    setup()
    rng = random.Random(seed)
    out = []
    k, d = rknots(rng)
    c = coefs(rng, len(k)-d-1)
    A = S.BSpline(basis(k, d), np.array(c))
    a = spec(k, d, c)
    case = {'key': fam, 'seed': seed}

    def op(name, res, x, tol=4, dom=None, **kw):
        r = {'type': 'op', 'op': name, 'a': a, 'r': back(res) if not isinstance(res, dict) else res, 'x': x, 'tol': tol, 'L': L, 'case': case}
        if dom:
            r['dom'] = list(dom)
        r.update(kw)
        out.append(r)

    if fam == 'arith':
        k2, d2 = rknots(rng, kind=rng.choice([None, 'even', 'mult']))
        if rng.random() < .3:
            k2, d2 = k, d
        elif rng.random() < .5:
            # breaks in common, with other multiplicities
            it = sorted(set(k[d+1:-d-1]))
            it = [q for q in it if rng.random() < .8] + ([rng.randrange(5, 95, 5)] if rng.random() < .3 else [])
            it = sum([[q]*rng.randint(1, d2) for q in sorted(set(it))[:5]], [])
            k2 = [0]*(d2+1) + it + [L]*(d2+1)
        c2 = coefs(rng, len(k2)-d2-1)
        B = S.BSpline(basis(k2, d2), np.array(c2))
        b = spec(k2, d2, c2)
        x = inner(rng, k+k2, max(d, d2), n=10)
        op('add', A+B, x, b=b, dom=(0, L))
        op('sub', A-B, x, b=b, dom=(0, L))
        op('mul', A*B, x, 700, b=b, dom=(0, L))
        op('neg', -A, x, dom=(0, L))
        v = round(rng.uniform(-3, 3), 6)
        op('plus', rng.choice([lambda: A+v, lambda: v+A])(), x, num=fix(v, U))
        op('times', rng.choice([lambda: A*v, lambda: v*A])(), x, 700, num=fix(v, U))
        op('rsub', v-A, x, num=fix(v, U))
        # the same with symbols, as in an optimization problem
        from casadi import MX, Function, DM
        sa, sb = MX.sym('a', len(c)), MX.sym('b', len(c2))
        SA, SB = S.BSpline(A.basis, sa), S.BSpline(B.basis, sb)
        for nm, e, t in (('add', SA+SB, 4), ('sub', SA-SB, 4), ('mul', SA*SB, 700), ('mul', SA*B, 700), ('add', B+SA, 4), ('rsub', v-SA, 4)):
            F = Function('F', [sa, sb], [e.coeffs])
            op(nm, S.BSpline(e.basis, np.array(F(DM(c), DM(c2))).ravel()), x, t, b=b, num=fix(v, U))
        if rng.random() < .3:
            op('pow', A**2, x, 700, dom=(0, L))
    elif fam == 'calc':
        # slopes, and slopes of slopes; no statement at the knots where the result jumps
        D0 = A
        for o in range(1, d+1):
            if o > 1 and any(k.count(q) > d-o+2 for q in k[d+1:-d-1]):
                break                   # the slope before this one does not exist everywhere
            D1 = A.derivative(o) if o > 1 or rng.random() < .5 else A.derivative()
            u = 10**int(math.log10(min(2.4e6/max(1., np.abs(D0.coeffs).max()), 1.5e7/max(1., np.abs(D1.coeffs).max()))))
            kk = [q for q in k[d+1:-d-1]]
            xd = [q for q in inner(rng, k, d, n=10) if kk.count(q) <= d-o]
            out.append({'type': 'op', 'op': 'deriv', 'a': back(D0, u=u), 'r': back(D1, u=u), 'x': xd, 'tol': int(3 + 100*(d+1)/gap(k)), 'L': L, 'case': dict(case, order=o)})
            D0 = D1
        x = inner(rng, k, d)
        r = X.running_integral(A)
        fr, to, got = [], [], []
        for _ in range(6):
            p, q = sorted(rng.sample(range(0, L+1), 2))
            fr.append(p); to.append(q)
            got.append(fix(float(np.array(X.definite_integral(A, p/float(L), q/float(L))).ravel()[0]), U))
        out.append({'type': 'int', 'op': 'integral', 'a': a, 'r': back(r, u=U), 'x': [q for q in inner(rng, k, d-1) if k.count(q) <= d], 'tol': 150, 'L': L,
                    'from': fr, 'to': to, 'got': got, 'total': fix(float(A.integral()), U), 'case': case})
    elif fam == 'eval':
        x = inner(rng, k, d, n=20)
        xs = np.array(x)/float(L)
        ys = A(xs)
        out.append({'type': 'eval', 'op': 'call', 'a': a, 'x': x, 'y': fixl(ys, U), 'tol': 4, 'sides': False, 'case': case})
        y2 = [float(np.array(A(float(t))).ravel()[0]) for t in xs]
        out.append({'type': 'eval', 'op': 'call1', 'a': a, 'x': x, 'y': fixl(y2, U), 'tol': 4, 'sides': False, 'case': case})
        out.append({'type': 'eval', 'op': 'sample', 'a': a, 'x': x, 'y': fixl(X.sample_splines(A, xs), U), 'tol': 4, 'sides': True, 'case': case})
        from casadi import MX, Function, DM
        t = MX.sym('t')
        cs = MX.sym('c', len(c))
        e = X.evalspline(S.BSpline(A.basis, cs), t)
        F = Function('F', [t, cs], [e])
        out.append({'type': 'eval', 'op': 'evalspline', 'a': a, 'x': x, 'y': [fix(float(F(float(q), DM(c))), U) for q in xs], 'tol': 4, 'sides': False, 'case': case})
        sc, sh = rng.randint(1, 4), rng.randint(-30, 90)
        B = A.scale(sc, shift=sh/float(L))
        op('scale', B, [sc*q + sh for q in x if k.count(q) <= d], num=sc, by=sh, dom=(sh, sc*L+sh))
    elif fam == 'knots':
        new = sorted(rng.sample(range(3, L-2), rng.randint(1, 5)))
        x = inner(rng, k, d)
        op('insert', A.insert_knots(np.array(new)/float(L)), x, dom=(0, L))
        T, kn = X.knot_insertion_T(A.basis, [q/float(L) for q in new if k.count(q) + new.count(q) <= d+1])
        op('insertT', S.BSpline(S.BSplineBasis(kn, d), T.dot(A.coeffs)), x, dom=(0, L))
        lo, hi = sorted(rng.sample(range(0, L+1, 2), 2))
        if rng.random() < .2:
            lo = 0
        if rng.random() < .2:
            hi = L
        def val(q):      # the very float the basis holds, when it is a knot
            w = [t for t in A.basis.knots if abs(t - q/float(L)) < 1e-9]
            return w[0] if w else q/float(L)
        C = X.crop_spline(A, val(lo), val(hi))
        op('crop', C, inner(rng, k, d, lo, hi), dom=(lo, hi))
        T, kn = X.get_interval_T(A.basis, val(lo), val(hi))
        op('interval', S.BSpline(S.BSplineBasis(kn, d), T.dot(A.coeffs)), inner(rng, k, d, lo, hi), dom=(lo, hi))
        # with symbols
        from casadi import MX, Function, DM
        cs = MX.sym('c', len(c))
        Cs = X.crop_spline(S.BSpline(A.basis, cs), val(lo), val(hi))
        F = Function('F', [cs], [Cs.coeffs])
        op('crop', S.BSpline(Cs.basis, np.array(F(DM(c))).ravel()), inner(rng, k, d, lo, hi), dom=(lo, hi))
        # a finer basis that contains this one
        fine, _ = knots_finer(rng, k, d)
        T = S.BSplineBasis(np.array(fine)/float(L), d).transform(A.basis)
        op('reexpress', S.BSpline(S.BSplineBasis(np.array(fine)/float(L), d), np.ravel(T.dot(A.coeffs))), x, dom=(0, L))
    elif fam == 'extra':
        k, d = rknots(rng, kind=rng.choice(['even', 'even', 'free', 'mult', 'none']), d=rng.choice([1, 2, 3, 3, 4]), nmax=5)
        ik = sorted(set(k))
        c = coefs(rng, len(k)-d-1, 1.)
        A = S.BSpline(basis(k, d), np.array(c))
        ux = 10**5
        a = spec(k, d, c, ux)
        last = ik[-1]-ik[-2]
        ex = rng.choice([last, rng.randint(1, last)])
        if k.count(ik[-2]) <= d or len(ik) == 2:
            T = X.extrapolate_T(A.basis, ex/float(L))
            m = len(k) + T.shape[0] - T.shape[1]
            # the old knots, the old end as a knot of the same multiplicity as the last inner one, and the new end
            mult = T.shape[0] - T.shape[1]
            kn = k[:-d-1] + [L]*mult + [L+ex]*(d+1)
            cf = T.dot(A.coeffs)
            amp = tolx(k, d, last, ex)
            if np.abs(cf).max() > 20:
                return out
            op('extrapolate', spec(kn, d, cf, ux), inner(rng, k, d, 0, L+ex), amp, dom=(0, L+ex))
            out[-1]['case'] = dict(case, knots=k, d=d)
            c1 = X.extrapolate(A.coeffs, ex/float(L), A.basis)
            op('extrapolate', spec(kn, d, c1, ux), inner(rng, k, d, 0, L+ex), amp, dom=(0, L+ex))
            if len(ik) > 2:
                T = X.shiftoverknot_T(A.basis)
                cf = T.dot(A.coeffs)
                # the knots one interval further: first ones drop out, as many come in at the end
                kn = [q for q in k if q > ik[1]]
                m1 = k.count(ik[1])
                inn = [q for q in k if ik[1] < q < L]
                kn = [ik[1]]*(d+1) + inn + [L]*mult + [L+last]*(d+1)
                if np.abs(cf).max() > 20:
                    return out
                op('overknot', spec(kn, d, cf, ux), inner(rng, k, d, ik[1], L+last), tolx(k, d, last, last), dom=(ik[1], L+last))
                out[-1]['case'] = dict(case, knots=k, d=d)
    elif fam == 'first':
        t = rng.randint(0, sorted(set(k))[1]-1) if rng.random() < .9 else 0
        kn = [t]*(d+1) + k[d+1:]
        x = inner(rng, k, d, t, L)
        T = X.shiftfirstknot_T(A.basis, t/float(L))
        cf = T.dot(A.coeffs)
        op('first', spec(kn, d, cf), x, dom=(t, L))
        c1 = X.shift_knot1_fwd(A.coeffs, A.basis, t/float(L))
        op('first', spec(kn, d, c1), x, dom=(t, L))
        if min(np.diff(sorted(set(k)))) > 0 and t < sorted(set(k))[1]*.8:
            _, Ti = X.shiftfirstknot_T(A.basis, t/float(L), inverse=True)
            c2 = Ti.dot(cf)
            op('back', spec(k, d, c2), inner(rng, k, d), 6, dom=(0, L))
            c2 = X.shift_knot1_bwd(cf, A.basis, t/float(L))
            op('back', spec(k, d, c2), inner(rng, k, d), 6, dom=(0, L))
            from casadi import MX, Function, DM
            cs, ts = MX.sym('c', len(c)), MX.sym('t')
            for nm, fn, inp, kk, lo in (('symfirst', X.shift_knot1_fwd, A.coeffs, kn, t), ('symback', X.shift_knot1_bwd, cf, k, 0)):
                F = Function('F', [cs, ts], [fn(cs, A.basis, ts)])
                op(nm, spec(kk, d, np.array(F(DM(np.array(inp)), t/float(L))).ravel()), inner(rng, k, d, lo, L), 6, dom=(lo, L))
        # a polynomial can be put on new knots without loss
        p = [rng.uniform(-.5, .5) for _ in range(d+1)]
        g = S.BSplineBasis(np.array(k)/float(L), d)
        xs = np.linspace(0, 1, 80)
        cp = np.linalg.lstsq(g(xs).toarray(), np.polyval(p, xs), rcond=None)[0]
        tt = rng.choice([0, 10, 20, 30, 40, 50])
        n = len(cp) - d
        ev = [0]*(d+1) + [L*q//n for q in range(1, n)] + [L]*(d+1)
        if n in (1, 2, 4, 5, 10):
            ge = S.BSplineBasis(np.array(ev)/float(L), d)
            ce = np.linalg.lstsq(ge(xs).toarray(), np.polyval(p, xs), rcond=None)[0]
            r = X.shift_spline(ce, tt/float(L), ge)
            w = (L-tt)/n
            if abs(w - round(w)) < 1e-9:
                kn = [tt]*(d+1) + [tt + int(round(w))*q for q in range(1, n)] + [L]*(d+1)
                a = spec(ev, d, ce)
                op('shift', spec(kn, d, r), inner(rng, ev, d, tt, L), 10, dom=(tt, L))
    elif fam == 'concat':
        out += concat(rng, case)
    return out


def gap(k):
    k = sorted(set(k))
    return min(b-a for a, b in zip(k[:-1], k[1:]))


def tolx(k, d, last, ex):
    """rounded coefficients are blown up beyond the end of the last piece"""
    span = min(b-a for a, b in zip(sorted(set(k))[:-1], sorted(set(k))[1:]))
    return int(min(200000, 6 + 4*(1 + 2.*ex/min(span, last))**d*(1. + float(last)/span)))


def knots_finer(rng, k, d):
    f = list(k)
    for q in rng.sample(range(5, L-4, 3), rng.randint(0, 4)):
        if f.count(q) < d:
            f.append(q)
    return sorted(f), d


def concat(rng, case):
    """segments one after the other; the joint can be anything from a jump to as smooth as can be"""
    d = rng.choice([2, 3, 3])
    n = rng.choice([2, 4, 5])
    q = 100
    nseg = rng.randint(2, 3)
    times = [rng.choice([20, 40, 60, 80, 100])*rng.choice([1, 2]) for _ in range(nseg)]          # in 1/100 s, multiples of 20 so knots lie on the lattice
    smooth = rng.choice(['jump', 'value', 'slope', 'all'])
    ncol = rng.choice([1, 2])
    u = 10**5
    segs, coefsets = [], []
    even = [0]*(d+1) + [100*k//n for k in range(1, n)] + [100]*(d+1)
    b = S.BSplineBasis(np.array(even)/100., d)
    xs = np.linspace(0, 1, 60)
    M = b(xs).toarray()
    polys = [[rng.uniform(-.4, .4) for _ in range(d+1)] for _ in range(ncol)]
    if rng.random() < .3:
        polys = [[0.]*(d+1) if rng.random() < .5 else p for p in polys]         # stands still
    t0 = 0.
    sign = rng.choice([1., -1.])
    for s in range(nseg):
        T = times[s]/100.
        cs = []
        for l in range(ncol):
            if smooth == 'all':
                y = sign*np.polyval(polys[l], t0 + T*xs)
                cc = np.linalg.lstsq(M, y, rcond=None)[0]
            else:
                cc = np.array([rng.uniform(-1.5, 1.5) for _ in range(len(b))])
                if s and smooth in ('value', 'slope'):
                    p = coefsets[-1][l]
                    cc[0] = p[-1]
                    if smooth == 'slope':
                        Tp = times[s-1]/100.
                        cc[1] = cc[0] + (p[-1]-p[-2])*T/Tp
            cs.append(cc)
        coefsets.append(cs)
        segs.append([S.BSpline(b, cc) for cc in cs])
        t0 += T
    # no joints that are neither smooth nor clearly broken (the code calls 0.4 percent equal)
    for s in range(1, nseg):
        for l in range(ncol):
            for o in range(d+1):
                v = float(segs[s-1][l].derivative(o)(1.)/(times[s-1]/100.)**o)
                w = float(segs[s][l].derivative(o)(0.)/(times[s]/100.)**o)
                if 1e-7*abs(v+w) + 1e-9 < abs(v-w) < 2e-2*abs(v+w):
                    return []
    res = X.concat_splines(segs, [t/100. for t in times])
    start = [sum(times[:k]) for k in range(nseg)]
    total = sum(times)
    out = []
    for l in range(ncol):
        parts = []
        for s in range(nseg):
            kk = [k*times[s]//100 for k in even]
            parts.append(spec(kk, d, coefsets[s][l], u))
        lo = [k for k in range(1, total) if all(abs(k-t) > 1 for t in start)]
        x = sorted(rng.sample(lo, min(18, len(lo))))
        out.append({'type': 'op', 'op': 'concat', 'parts': parts, 'start': start, 'r': back(res[l], 100, u), 'x': x, 'tol': 60, 'dom': [0, total], 'L': L,
                    'case': dict(case, key='concat/%s/%s' % (smooth, ['first', 'second'][l]), times=times)})
    return out


DESIGN = '''SPECIFICATION Spec
CONSTANTS D=%d KMAX=%d Den=%d Steps=%d
INVARIANTS Shape SameFunction Hull SameSlope
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    setup()
    for k, c in enumerate([(1, 4, 5760, 3), (2, 4, 5760, 2)] if ctx.quick else [(1, 5, 28800, 3), (2, 4, 5760, 3), (3, 4, 5760, 2)]):
        ctx.design('SplineModel', DESIGN % c, name='SplineModel_%d' % k, workers=8, timeout=2500, mem='8g')
    f = 1 if ctx.quick else 10
    jobs = []
    for fam, n in (('arith', 60), ('calc', 60), ('eval', 60), ('knots', 60), ('extra', 120), ('first', 80), ('concat', 80)):
        jobs += [(ctx.rng.randrange(10**9), fam) for _ in range(n*f)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 120)):
        if st != 'ok':
            ctx.violation('raises.' + j[1], str(r)[-900:], {'key': j[1], 'job': list(j)})
        else:
            recs += r
    ctx.judge('SplineTrace', recs, shards=8)
    ctx.evals = sum(len(r['x']) for r in recs)
    ctx.assumptions += ['knots on a lattice of 1/100 of the domain, values on a grid of 1e-6',
                        'nothing is asked at a jump of the function (or its derivative)']
    for r in recs[:2]:
        ctx.sample(r)


if __name__ == '__main__':
    vlib.main('C15', run)
