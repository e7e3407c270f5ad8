"""G-code: reading programs, rooms around their path, and the tool working its way through."""
import math
import os
import random
import tempfile
import numpy as np
import vlib
from vlib import fix, fixl

og = gr = None
S = 1000
DESIGN = '''SPECIFICATION Spec
CONSTANTS L=%d W=%d
INVARIANTS Joined EndsHere Moves Same Silent Divided Elsewhere InOrder AllDone
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
'''


class Root(object):
    def withdraw(self):
        pass


def setup():
    global og, gr
    if og is None:
        og = vlib.import_repo()
        import sys
        gr = sys.modules['omgtools.gui.gcode_reader']
        gr.tk.Tk = Root           # no window needed
        import pdb
        pdb.set_trace = lambda *a, **k: None


def num(v):
    s = '%.3f' % (v/1000.)
    return s.rstrip('0').rstrip('.') if '.' in s else s


def line(g='', **w):
    l = {'g': g}
    for k in 'xyzij':
        l[k] = [w[k]] if w.get(k) is not None else []
    return l


def program(rng, n, planar=True, plain=False, split=None, big=1, closed=False):
    """lines of meaning, and the text that says so; everything stays within some 10 units"""
    lines, text = [], []
    pos = [0, 0, 0]
    nr = rng.choice([0, 10])
    form = rng.choice(['plain', 'numbered'])

    def say(l, comment=''):
        nonlocal nr
        w = ' '.join(k.upper() + num(l[k][0]) for k in 'xyzij' if l[k])
        t = (l['g'] + ' ' + w).strip()
        if form == 'numbered':
            nr += 10
            t = 'N%d ' % nr + t
        lines.append(l)
        text.append(t + comment)

    def noise():
        if plain or rng.random() < .8:
            return
        t = rng.choice(['%', '( a remark )', '(G01 X1 Y1)', 'G17', 'G90', '%% ISO 6983 code', 'M30', '', '   '])
        lines.append(line())
        text.append(t)
    if rng.random() < .85 or not planar or plain:
        p = [rng.randint(-3, 3)*1000, rng.randint(-3000, 3000), 0 if planar else rng.choice([0, rng.randint(-500, 500)])]
        say(line('G00', x=p[0], y=p[1], z=p[2] if p[2] or rng.random() < .2 else None))
        pos = p
    for _ in range(n):
        noise()
        kind = rng.choice(['line', 'line', 'arc', 'same', 'z'] if not plain else ['line', 'line', 'arc'])
        if kind == 'z' and planar:
            kind = 'line'
        if kind == 'same':
            # a motion to where it is already
            say(line(rng.choice(['G00', 'G01']), x=pos[0] if rng.random() < .5 else None, y=pos[1] if rng.random() < .5 else None))
            continue
        if kind == 'z':
            z = pos[2] + rng.choice([1, -1])*rng.randint(50, 800)
            say(line(rng.choice(['G00', 'G01']), z=z, x=pos[0] if rng.random() < .3 else None))
            pos[2] = z
            continue
        if kind == 'line':
            for _ in range(200):
                q = [pos[0], pos[1]]
                for e in ([0], [1], [0, 1], [0, 1])[rng.randrange(4)]:
                    q[e] = rng.choice([rng.randint(-6, 6)*1000, rng.randint(-6000, 6000)])
                d = math.hypot(q[0]-pos[0], q[1]-pos[1])
                if 400*big <= d <= 6000:
                    break
            else:
                q = [pos[0] + 1000, pos[1]]
            keep = rng.random() < .5
            say(line(rng.choice(['G00', 'G01', 'G01']), x=q[0] if q[0] != pos[0] or keep else None, y=q[1] if q[1] != pos[1] or keep else None,
                     z=pos[2] if rng.random() < .1 else None), rng.choice(['', '', '', ' (to the corner)', ' (X axis)']) if not plain else '')
            pos[:2] = q
            continue
        for _ in range(200):
            R = rng.randint(500*big, 3000)
            al = rng.choice([0, 1, 2, 3])*math.pi/2 if rng.random() < .5 else rng.uniform(-3.14, 3.14)
            i, j = int(round(R*math.cos(al))), int(round(R*math.sin(al)))
            c = [pos[0]+i, pos[1]+j]
            g = rng.choice(['G02', 'G03'])
            sw = (rng.choice([1, 2, 3])*math.pi/2 if rng.random() < .5 else rng.uniform(.3, 5.6))*(1 if g == 'G03' else -1)
            u = [pos[0]-c[0], pos[1]-c[1]]
            q = [int(round(c[0] + u[0]*math.cos(sw) - u[1]*math.sin(sw))), int(round(c[1] + u[0]*math.sin(sw) + u[1]*math.cos(sw)))]
            if max(abs(q[0]), abs(q[1])) <= 7000 and max(abs(c[0]), abs(c[1])) < 9000:
                break
        else:
            continue
        # words that say nothing new may be left out
        say(line(g, x=q[0] if q[0] != pos[0] or rng.random() < .5 else None, y=q[1] if q[1] != pos[1] or rng.random() < .5 else None,
                 i=i if i or rng.random() < .5 else None, j=j if j or i == 0 or rng.random() < .5 else None))
        pos[:2] = q
    if closed:
        pass
    noise()
    return lines, '\n'.join(text) + rng.choice(['\n', ''])


READER = None


def read(text, how='file', extra=None):
    global READER
    with tempfile.TemporaryDirectory(prefix='omgverif_C10_') as d, vlib.quiet():
        f = os.path.join(d, 'prog.nc')
        if how == 'sub':
            os.mkdir(os.path.join(d, 'subfiles'))
            with open(os.path.join(d, 'subfiles', 'part.nc'), 'w') as h:
                h.write(text)
            with open(f, 'w') as h:
                h.write('%\nN10 L part.nc\n')
        else:
            with open(f, 'w') as h:
                h.write(text)
        if READER is None or how == 'new':
            READER = gr.GCodeReader()
        r = READER
        r.reset()
        here = os.getcwd()
        os.chdir(d)
        try:
            r.load_file(f)
            if extra:
                answers = iter(extra)
                old = gr.input if 'input' in vars(gr) else None
                gr.input = lambda *a: next(answers)
                try:
                    r.convert()
                finally:
                    if old is None:
                        del gr.input
                    else:
                        gr.input = old
            r.read()
            r.file.close()
        finally:
            os.chdir(here)
        r.create_blocks()
    return r


def block(b, pts=True):
    r = {'g': b.type, 'a': fixl(b.start, S), 'b': fixl(b.end, S), 'c': fixl(b.center[:3], S) if hasattr(b, 'center') else [],
         'R': fix(b.radius, S) if hasattr(b, 'radius') else 0, 'pts': []}
    if pts:
        r['pts'] = [fixl(p, S) for p in b.get_coordinates()]
        # what it says of its radius may not depend on having been drawn
        if hasattr(b, 'center') and not r['R']:
            r['R'] = -1
    return r


def f_prog(rng):
    how = rng.choice(['file', 'file', 'new', 'sub'])
    lines, text = program(rng, rng.randint(1, 8), planar=rng.random() < .6)
    r = read(text, how)
    G = r.get_gcode()
    where = {id(b): k+1 for k, b in enumerate(G)}
    rec = {'type': 'prog', 'lines': lines, 'blocks': [block(b) for b in G], 'key': 'prog/' + how,
           'parts': [[where[id(b)] for b in p] for p in r.get_block_division(G)] if G else [], 'conn': []}
    if G:
        r.get_connections()
        rec['conn'] = [fixl(p, S) for p in r.connections]
    return rec, text


def f_conv(rng):
    lines, text = program(rng, rng.randint(1, 6), plain=True)
    d = [rng.randint(-20, 20)*100, rng.randint(-20, 20)*100]
    f = rng.choice([5, 10, 15, 20])
    if rng.random() < .2:
        ans, d, f = ['no'], [0, 0], 10
    else:
        ans = ['yes', '%r,%r' % (d[0]/1000., d[1]/1000.), repr(f/10.)]
    r = read(text, 'file', ans)
    return {'type': 'conv', 'lines': lines, 'd': d, 'f': f, 'blocks': [block(b, False) for b in r.get_gcode()], 'key': 'conv/' + ans[0]}, text


def room(x):
    sh = x['shape']
    m = {'nr': int(x['number']), 'a': fixl(x['start'], S), 'b': fixl(x['end'], S), 'kind': 'rect', 'len': 0, 'v': [], 'c': [], 'rin': 0, 'rout': 0,
         's': [], 'e': [], 'dir': 0}
    if type(sh).__name__ == 'Ring':
        m['kind'] = 'ring'
        m['c'] = fixl(x['position'][:2], S)
        if list(x['pose'][:2]) != list(x['position'][:2]):
            m['c'] = [10**6, 10**6]
        m['rin'], m['rout'] = fix(sh.radius_in, S), fix(sh.radius_out, S)
        m['s'], m['e'] = fixl(sh.start[:2], S), fixl(sh.end[:2], S)
        m['dir'] = 1 if sh.direction == 'CCW' else -1
    else:
        m['v'] = [fixl(sh.vertices[:, k] + np.array(x['position'][:2]), S) for k in range(sh.vertices.shape[1])]
        m['len'] = fix(math.hypot(x['end'][0]-x['start'][0], x['end'][1]-x['start'][1]), S)
    return m


def options(rng):
    tol = rng.choice([50, 100, 20])
    return {'tol': tol, 'small': tol//rng.choice([2, 5]), 'split': rng.random() < .5, 'var': rng.random() < .4,
            'len': rng.choice([0, 0, 1500]), 'share': rng.choice([10, 20, 30])}


def scheduler(G, o, n=1, **kw):
    tool = og.Tool(o['tol']/1000., tol_small=o['small']/1000., **kw)
    tool.define_knots(knot_intervals=10)
    tool.set_initial_conditions(G[0].start)
    tool.set_terminal_conditions(G[-1].end)
    s = og.GCodeSchedulerProblem(tool, G, n_segments=n, split_circle=o['split'], variable_tolerance=o['var'],
                                 split_length=o['len']/1000., split_small=o['share']/100.)
    return tool, s


def f_rooms(rng):
    lines, text = program(rng, rng.randint(1, 6), big=2 if rng.random() < .5 else 1)
    G = read(text).get_gcode()
    if not G:
        return None
    o = options(rng)
    with vlib.quiet():
        if rng.random() < .3:
            scheduler(G, options(rng))       # the same program may be used before
        t, s = scheduler(G, o)
    return {'type': 'rooms', 'lines': lines, 'o': o, 'rooms': [room(x) for x in s.environment.room],
            'key': 'rooms/%s%s' % ('split' if o['split'] else '', 'var' if o['var'] else '')}, text


LIMITS = [{'vmax': 1., 'amax': 5., 'jmax': 40.}, {'vmax': .8, 'amax': 3., 'jmax': 60.}, {'vmax': 2., 'amax': 8., 'jmax': 40.}]


def turns_back(G):
    # a block that goes back (nearly) the way the one before came: planned together, there is nothing
    # that makes the tool go to the turning point (see the finding run/back)
    def tangent(b, end):
        if b.type in ('G00', 'G01'):
            return np.array([b.X1-b.X0, b.Y1-b.Y0])
        p = np.array([b.X1-b.center[0], b.Y1-b.center[1]] if end else [b.X0-b.center[0], b.Y0-b.center[1]])
        return np.array([-p[1], p[0]])*(1 if b.type == 'G03' else -1)
    for a, b in zip(G[:-1], G[1:]):
        u, v = tangent(a, True), tangent(b, False)
        if np.dot(u, v) < -.85*np.linalg.norm(u)*np.linalg.norm(v):
            return True
    return False


def f_back(rng):
    text = 'G00 X3 Y-1.794\nG01 X2 Y0\nG01 X-3\nG01 X-1.031\n'
    lines = [line('G00', x=3000, y=-1794), line('G01', x=2000, y=0), line('G01', x=-3000), line('G01', x=-1031)]
    return f_run(rng, lines, text, 2)


def axes_limits(rng, lim):
    b = {}
    for c in 'xyz':
        for k in ('v', 'a', 'j'):
            for side, sign in (('min', -1), ('max', 1)):
                b[k+c+side] = sign*round(lim[k+'max']*rng.choice([1., .5, .7, .85]), 4)
    b['jxmin'] = b['jymin'] = -b['jxmax']       # (the initial guess is only made for these)
    b['jymax'] = b['jxmax']
    return b


def limits_of(tool):
    """as given"""
    return [[[fix(tool.given[k][c][m], S) for m in (0, 1)] for c in range(3)] for k in range(3)]


def given(b):
    """limits per derivative and axis, from the bounds that a user gives"""
    default = {'v': .5, 'a': 1., 'j': 2.}
    out = []
    for k in 'vaj':
        row = []
        for c in 'xyz':
            m = []
            for side, sign in (('min', -1), ('max', 1)):
                v = b.get(k+c+side, sign*default[k])
                if k+side in b and not (k == 'v' and c == 'z'):
                    v = b[k+side]
                m.append(v)
            row.append(m)
        out.append(row)
    return out


def f_plunge(rng):
    """a block that moves in z only"""
    x, y, z0 = (rng.randint(-3000, 3000) for _ in range(3))
    z1 = z0 + rng.choice([-1, 1])*rng.randint(100, 2500)
    text = 'G00 X%s Y%s Z%s\nG01 Z%s\n' % (num(x), num(y), num(z0), num(z1))
    G = read(text).get_gcode()
    lim = rng.choice(LIMITS)
    mach = rng.random() < .4
    b = axes_limits(rng, lim)
    if mach:
        b['vzmin'] = -b['vzmax']
    b['vmin'] = b['vmax'] = 0.
    tool = og.Tool(.05, bounds=dict(b), options={'vel_limit': 'machining' if mach else 'axes'})
    tool.define_knots(knot_intervals=10)
    tool.set_initial_conditions(G[-1].start)
    tool.set_terminal_conditions(G[-1].end)
    with vlib.quiet():
        s = og.GCodeSchedulerProblem(tool, [G[-1]], n_segments=1)
        s.set_options({'solver_options': {'ipopt': {'ipopt.tol': 1e-6, 'ipopt.max_iter': 1500}}})
        dep = og.Deployer(s, sample_time=.01)
        dep.check_results = lambda *a: None
        dep.update_segment()
    if s.local_problem.problem.stats()['return_status'] != 'Solve_Succeeded':
        return None
    T = float(s.motion_times[0])
    sp = s.local_problem.father.get_variables(tool, 'splines_seg0')
    g = np.linspace(0, 1, 41)
    der = [[np.ravel(f.derivative(d)(g) if d else f(g))/T**d for f in sp] for d in range(4)]
    tool.given = given(b)
    return {'type': 'plunge', 'a': [x, y, z0], 'b': [x, y, z1], 'mach': mach, 'lim': limits_of(tool), 'T': fix(T, S),
            'pts': [fixl([der[0][c][k] for c in range(3)], S) for k in range(41)],
            'der': [[[fix(np.min(v), S), fix(np.max(v), S)] for v in der[d]] for d in (1, 2, 3)],
            'rest': [fixl([der[1][c][k] for c in range(3)], S) for k in (0, -1)],
            'traj': [fixl(c[:3], S) for c in dep.state_traj.T], 'key': 'plunge'}, text


def f_run(rng, lines=None, text=None, W=None):
    back = lines is not None
    for _ in range(30):
        if back:
            G = read(text).get_gcode()
            break
        lines, text = program(rng, rng.randint(1, 4), plain=True, big=2)
        G = read(text).get_gcode()
        if G:
            break
    if not back and rng.random() < .25:
        # there and back and there again: the last segment has been here before
        b = G[-1]
        if b.type == 'G01':
            more = [line('G01', x=int(round(b.X0*1000)), y=int(round(b.Y0*1000))), line('G01', x=int(round(b.X1*1000)), y=int(round(b.Y1*1000)))]
            lines = lines + more
            text = text.rstrip('\n') + ''.join('\nG01 X%s Y%s' % (num(l['x'][0]), num(l['y'][0])) for l in more) + '\n'
            G = read(text).get_gcode()
    o = dict(options(rng), tol=rng.choice([100, 60]))
    o['var'] = not back and rng.random() < .2 and len(G) < 3
    if back:
        o.update(tol=100, split=False)
    lim = rng.choice(LIMITS)
    # (nor that makes it leave, if it is where it has to be in the end)
    there = math.hypot(G[-1].X1-G[0].X0, G[-1].Y1-G[0].Y0) < .5
    W = W or (1 if turns_back(G) or there else rng.randint(1, 3))
    mach = rng.random() < .4
    its = []
    with vlib.quiet():
        b = {}
        for k in ('v', 'a', 'j'):
            b[k+'max'], b[k+'min'] = lim[k+'max'], -lim[k+'max']
        if not mach and rng.random() < .6:      # each axis its own
            b = axes_limits(rng, lim)
        elif rng.random() < .5:                 # as many as differ
            b['vzmin'], b['vzmax'] = -lim['vmax']/2, lim['vmax']/2
        from omgtools.problems.gcodeschedulerproblem import GCodeSchedulerProblem
        probe = scheduler(G, o)[1]
        W = min(W, len(probe.environment.room))
        tool, s = scheduler(G, o, W, bounds=dict(b), options={'vel_limit': 'machining' if mach else 'axes'})
        s.set_options({'solver_options': {'ipopt': {'ipopt.tol': 1e-6, 'ipopt.max_iter': 1500}}})
        tool.given = given(b)
        rooms = [room(x) for x in s.environment.room]
        R = len(rooms)
        dep = og.Deployer(s, sample_time=.01)
        dep.check_results = lambda *a: None       # it would open a debugger
        solve = s.solve

        class Enough(Exception):
            pass

        def solve_(t, u):
            if len(its) > 2*R + 2:
                raise Enough()
            solve(t, u)
            plan = []
            for q in range(int(s.n_segments)):
                T = float(s.motion_times[q])
                sp = [s.local_problem.father.get_variables(tool, 'splines_seg%d' % q)[k] for k in range(3)]
                at = lambda d, x: [float(np.ravel(f.derivative(d)(x) if d else f(x))[0])/T**d for f in sp]
                g = np.linspace(0, 1, 41)
                der = lambda d: [np.ravel(f.derivative(d)(g))/T**d for f in sp]
                mx = lambda d: [[fix(np.min(v), S), fix(np.max(v), S)] for v in der(d)]
                plan.append({'T': fix(T, S), 'pts': [fixl(at(0, x)[:2], S) for x in np.linspace(0, 1, 17)], 'vmax': mx(1), 'amax': mx(2), 'jmax': mx(3),
                             'speed': fix(np.max(np.hypot(der(1)[0], der(1)[1])), S),
                             'first': {'x': fixl(at(0, 0.), S), 'v': fixl(at(1, 0.), S), 'acc': fixl(at(2, 0.), S)},
                             'last': {'x': fixl(at(0, 1.), S), 'v': fixl(at(1, 1.), S), 'acc': fixl(at(2, 1.), S)}})
            its.append({'cur': int(s.n_current_block), 'window': [int(x['number']) for x in s.segments],
                        'ok': s.local_problem.problem.stats()['return_status'] == 'Solve_Succeeded', 'plan': plan})
        s.solve = solve_
        try:
            dep.update_segment()
            traj = [fixl(c[:2], S) for c in dep.state_traj.T]
        except Enough:
            traj = []
        except Exception:
            if not its or its[-1]['ok']:
                raise
            traj = []       # what comes of a solve that failed is not claimed
    return {'type': 'run', 'lines': lines, 'o': o, 'W': W, 'rooms': rooms, 'its': its, 'mach': mach, 'traj': traj, 'back': back, 'lim': limits_of(tool), 'vmax': fix(lim['vmax'], S), 'amax': fix(lim['amax'], S),
            'jmax': fix(lim['jmax'], S), 'key': 'run/back' if back else 'run/%d' % W}, text


FAM = [('prog', f_prog, 240), ('conv', f_conv, 48), ('rooms', f_rooms, 160), ('run', f_run, 24), ('plunge', f_plunge, 8), ('back', f_back, 0)]


def job(a):
    setup()
    rng = random.Random(a[1])
    fam = {n: f for n, f, _ in FAM}[a[0]]
    out = []
    for k in range(a[2]):
        try:
            x = fam(rng)
        except Exception:
            import traceback
            out.append(('raises', traceback.format_exc()[-700:], {'key': a[0], 'job': list(a), 'nr': k}))
            continue
        if x is None:
            continue
        r, text = x
        r['case'] = {'key': r.pop('key'), 'job': list(a), 'nr': k, 'text': text}
        out.append(r)
    return out


def run(ctx):
    setup()
    ctx.design('GCodeModel', DESIGN % ((3, 2) if ctx.quick else (4, 3)), workers=8, timeout=1500)
    f = 1 if ctx.quick else 12
    jobs = []
    for n, _, k in FAM:
        for _ in range(8*f):
            jobs.append((n, ctx.rng.randrange(10**9), k//8))
    jobs = [j for j in jobs if j[2]] + [('back', 1, 1)]
    jobs.sort(key=lambda j: j[0] != 'run')
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 500)):
        if st != 'ok':
            ctx.violation('raises.' + j[0], str(r)[-900:], {'key': j[0], 'job': list(j)})
            continue
        for x in r:
            if isinstance(x, tuple):
                ctx.violation('raises.' + j[0], x[1], x[2])
            else:
                recs.append(x)
    ctx.judge('GCodeTrace', recs, shards=8, timeout=1500)
    ctx.evals = len(recs)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('type', 'case')})


if __name__ == '__main__':
    vlib.main('C10', run)
