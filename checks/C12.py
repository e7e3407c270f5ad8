"""Sessions with the graphical assistant, svg drawings it reads, and G-code made of drawings."""
import math
import os
import random
import shutil
import sys
import tempfile
import vlib
from vlib import fix, fixl

sys.path.insert(0, os.path.join(vlib.VERIF, 'lib'))
import faketk

og = tk = None
DESIGN = '''SPECIFICATION Spec
CONSTANTS Depth=%d Stale=FALSE
INVARIANTS Alive OnGrid There UpIsUp Two Fit One
CHECK_DEADLOCK FALSE
'''
NS = 'http://www.w3.org/2000/svg'


def setup():
    global og, tk
    if og is None:
        tk = faketk.install()
        vlib.import_repo()
        import omgtools
        og = omgtools


# ---------------------------------------------------------------- drawings
def num(h, rng=None):
    """half pixels as text"""
    return ('%g' % (h/2.)) if rng is None or rng.random() < .8 else '%.3f' % (h/2.)


def svg_text(rng, W, H, mm, groups, els):
    """groups: translations [half pixels]; the elements lie in the innermost group"""
    def style(e):
        if e['byname']:
            return 'stroke-width="%s"' % num(e['s'], rng)
        return 'style="fill:none;stroke-width:%s;stroke:#000000"' % num(e['s'], rng)
    body = []
    for e in els:
        if e['k'] == 'rect':
            body.append('<rect width="%s" height="%s" x="%s" y="%s" />' % tuple(num(e[c], rng) for c in 'whxy'))
        elif e['k'] == 'circle':
            body.append('<circle cx="%s" cy="%s" r="%s" />' % tuple(num(e[c], rng) for c in 'xyr'))
        elif e['line']:
            (a, b), (c, d) = e['p']
            body.append('<line fill="none" %s x1="%s" y1="%s" x2="%s" y2="%s" />' % ((style(e),) + tuple(num(q, rng) for q in (a, b, c, d))))
        else:
            body.append('<polyline fill="none" %s points="%s "/>' % (style(e), ' '.join('%s,%s' % (num(a, rng), num(b, rng)) for a, b in e['p'])))
    rng.shuffle(body)
    out = '\n'.join(body)
    for t in reversed(groups):
        out = '<g%s>\n%s\n</g>' % ('' if t is None else ' transform="translate(%s,%s)"' % (num(t[0]), num(t[1])), out)
    size = 'width="%gmm" height="%gmm" viewBox="0 0 %d %d"' % (W*mm, H*mm, W, H) if mm else rng.choice(
        ['width="%d" height="%d"' % (W, H), 'width="%dpx" height="%dpx" viewBox="0 0 %d %d"' % (W, H, W, H)])
    return '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<svg xmlns="%s" %s version="1.1">\n%s\n</svg>\n' % (NS, size, out)


def drawing(rng):
    """px: mm per pixel; everything in half pixels, such that centres are whole half pixels and mm"""
    px = rng.choice([10, 20, 40, 50])
    W, H = rng.randrange(60, 400, 2), rng.randrange(60, 400, 2)
    while W*px > 30000 or H*px > 30000:
        W, H = W//2, H//2
    mm = px if rng.random() < .35 else 0
    groups = [None if rng.random() < .3 else (rng.randrange(-30, 30), rng.randrange(-30, 30)) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
    els = []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(['rect', 'circle', 'line', 'line'])
        e = {'k': k, 't': [list(t) for t in groups if t is not None]}
        x, y = rng.randrange(0, 2*W), rng.randrange(0, 2*H)
        if k == 'rect':
            e.update(x=x, y=y, w=rng.randrange(2, W, 2), h=rng.randrange(2, H, 2))
        elif k == 'circle':
            e.update(x=x, y=y, r=rng.randrange(2, W//2))
        else:
            n = rng.choice([2, 2, 3, 4, 6])
            p, hor = [[x, y]], rng.random() < .5
            for _ in range(n-1):
                d = 2*rng.choice([-1, 1])*rng.randint(2, max(3, W//3))
                p.append([p[-1][0] + (d if hor else 0), p[-1][1] + (0 if hor else d)])
                hor = not hor
            e.update(p=p, s=2*rng.randint(1, 8), line=n == 2 and rng.random() < .7, byname=rng.random() < .5)
        els.append(e)
    return px, W, H, mm, groups, els


# ---------------------------------------------------------------- sessions
class Session(object):
    def __init__(self, rng):
        self.rng, self.events, self.n = rng, [], 0

    def open(self):
        rng = self.rng
        self.px = px = rng.choice([10, 20, 25, 40, 50])
        m2p = 1000//px
        while True:
            W, H = rng.randrange(80, 600), rng.randrange(80, 600)
            if W*px <= 28000 and H*px <= 28000:
                break
        X, Y = rng.choice([(0, 0), (rng.randrange(-100, 100), rng.randrange(-100, 100))])
        nx, ny = rng.choice([(20, 20), (rng.randint(2, 30), rng.randint(2, 30))])
        self.frame(px, W, H, nx, ny)
        self.root = tk.Tk()
        e = dict(a='open', px=px, W=W, H=H, X=X, Y=Y, nx=nx, ny=ny)
        opts = {'meter_to_pixel': m2p, 'n_cells': [nx, ny]}
        if m2p == 50 and rng.random() < .5:
            del opts['meter_to_pixel']
        if (nx, ny) == (20, 20) and rng.random() < .5:
            del opts['n_cells']
        return self.do(e, lambda: setattr(self, 'gui', og.EnvironmentGUI(self.root, width=W/float(m2p), height=H/float(m2p), position=[X/float(m2p), Y/float(m2p)], options=opts)))

    def frame(self, px, W, H, nx, ny):
        self.px, self.W, self.H, self.cw, self.ch = px, W, H, -(-W//nx), -(-H//ny)

    def do(self, e, fn):
        e['died'] = ''
        try:
            fn()
        except (Exception, SystemExit) as err:
            e['died'] = ('%s: %s' % (type(err).__name__, err))[:160]
        gui = getattr(self, 'gui', None)
        c = [w for w in self.root.widgets if isinstance(w, faketk.Canvas)][-1] if getattr(self.root, 'widgets', None) else None
        its = list(c.items.values()) if c else []
        e['pic'] = [[k, fix(q[0], 100), fix(q[1], 100), fix(q[2]-q[0], 100), fix(q[3]-q[1], 100)] for k, q, kw in its if kw.get('fill') != 'white']
        cells = [q for k, q, kw in its if kw.get('fill') == 'white']
        e['grid'] = [len(cells), int(max([q[2] for q in cells] or [0])), int(max([q[3] for q in cells] or [0]))]
        e['marks'] = [fixl(p, 1e5) for p in gui.get_clicked_positions()] if gui is not None else []
        self.events.append(e)
        return e['died'] == ''

    @property
    def canvas(self):
        return [w for w in self.root.widgets if isinstance(w, faketk.Canvas)][-1]

    def press(self, text):
        b = [w for w in self.root.widgets if isinstance(w, faketk.Button) and w.kw.get('text') == text and w.master is self.root][-1]
        b.kw['command']()

    def place(self):
        """somewhere on the canvas, but not halfway two lines of the grid"""
        while True:
            x, y = self.rng.randint(0, self.W), self.rng.randint(0, self.H)
            if (2*x) % (2*self.cw) != self.cw and (2*y) % (2*self.ch) != self.ch:
                return x, y

    def click(self, which, x, y):
        c = self.canvas
        c.scroll = self.rng.choice([(0, 0), (self.rng.randint(0, 50), self.rng.randint(0, 50))])
        c.bound[which](faketk.Event(x - c.scroll[0], y - c.scroll[1]))

    def draw(self):
        rng, g = self.rng, self.gui
        k = rng.randint(0, 1)
        big = rng.random() < .12
        w, h = rng.randint(1, self.W*self.px//(1 if big else 4))*1, rng.randint(1, self.H*self.px//(1 if big else 4))
        r = rng.randint(1, max(self.W, self.H)*self.px//(1 if big else 6))
        if rng.random() < .08:
            w, r = 0, 0
        v = [rng.choice([0, 0, rng.randint(-2000, 2000)]) for _ in range(2)]
        b = rng.random() < .3
        x, y = self.place()
        g.shape.set('circle' if k else 'rectangle')
        g.width.set(w/1000.), g.height.set(h/1000.), g.radius.set(r/1000.)
        g.vel_x.set(v[0]/1000.), g.vel_y.set(v[1]/1000.), g.bounce.set(b)
        return self.do(dict(a='draw', k=k, w=w, h=h, r=r, v=v, b=b, x=x, y=y), lambda: self.click('<Button-1>', x, y))

    def pick(self):
        x, y = self.place()
        pics = self.events[-1]['pic']
        if pics and self.rng.random() < .75:       # close to an obstacle
            k, x1, y1, w, h = self.rng.choice(pics)
            for _ in range(20):
                f = [self.rng.uniform(-.7, 1.7), self.rng.uniform(-.7, 1.7)]
                xx, yy = int((x1 + f[0]*w)/100), int((y1 + f[1]*h)/100)
                if 0 <= xx <= self.W and 0 <= yy <= self.H and (2*xx) % (2*self.cw) != self.cw and (2*yy) % (2*self.ch) != self.ch:
                    x, y = xx, yy
                    break
        self.gui.shape.set('select')
        return self.do(dict(a='pick', x=x, y=y), lambda: self.click('<Button-1>', x, y))

    def move(self):
        d, t = self.rng.choice([('up', u'\u2191'), ('down', u'\u2193'), ('left', u'\u2190'), ('right', u'\u2192')])
        return self.do(dict(a='move', d=d), lambda: self.press(t))

    def remove(self):
        return self.do(dict(a='remove'), lambda: self.press('Remove'))

    def mark(self):
        x, y = self.rng.randint(0, self.W), self.rng.randint(0, self.H)
        if self.rng.random() < .15:
            x, y = self.rng.choice([(x, self.H + 10), (self.W + 5, y), (-3, y), (x, -7), (0, y), (self.W, self.H)])
        return self.do(dict(a='mark', x=x, y=y), lambda: self.click('<Button-3>', x, y))

    def ready(self, save):
        self.gui.save_env.set(save)
        e = dict(a='ready', save=save, env=[])
        if hasattr(self.gui, 'environment'):
            del self.gui.environment
        ok = self.do(e, lambda: self.press('Ready'))
        if ok and hasattr(self.gui, 'environment'):
            env = self.gui.get_environment()
            obs = []
            for o in env.obstacles:
                k = 1 if isinstance(o.shape, og.Circle) else 0
                obs.append([k] + fixl(o.signals['position'][:, -1], 1e5) + fixl([0, 0, o.shape.radius] if k else [o.shape.width, o.shape.height, 0], 1e5)
                           + fixl(o.signals['velocity'][:, -1], 1e5) + [int(bool(o.options['bounce']))])
            room = env.room[0] if isinstance(env.room, list) else env.room
            e['env'] = [obs, fixl(room['position'], 1e5), fixl([room['shape'].width, room['shape'].height], 1e5)]
        return ok

    def ends(self):
        m = self.rng.randint(0, min(self.W, self.H)*self.px//3)
        e = dict(a='ends', m=m, out=[])

        def fn():
            e['out'] = [fixl(p, 1e5) for p in self.gui.get_clicked_positions(margin=m/1000.)]
        return self.do(e, fn)

    def load(self, f):
        sys.modules['tkinter.filedialog'].answers[:] = [f]
        return self.do(dict(a='load'), lambda: self.press('Load'))

    def cancel(self):
        sys.modules['tkinter.filedialog'].answers[:] = [self.rng.choice(['', 'there-is-no-such-file.pickle'])]
        return self.do(dict(a='cancel'), lambda: self.press('Load'))

    def svg(self):
        rng = self.rng
        px, W, H, mm, groups, els = drawing(rng)
        nx, ny = rng.randint(2, 30), rng.randint(2, 30)
        self.n += 1
        f = 'drawing%d.svg' % self.n
        with open(f, 'w') as o:
            o.write(svg_text(rng, W, H, mm, groups, els))
        sys.modules['tkinter.filedialog'].answers[:] = [f]
        ans = ['perhaps'] if rng.random() < .1 else []
        ans += ['no']
        if not mm:
            ans += (['-4', 'many'] if rng.random() < .1 else []) + [str(1000//px)]
        ans += (['3', '-1,4', '0,3'] if rng.random() < .1 else []) + ['%d, %d' % (nx, ny)]
        self.root.answers[:] = ans
        self.frame(px, W, H, nx, ny)
        clean = [{k: v for k, v in e.items() if k not in ('line', 'byname')} for e in els]
        return self.do(dict(a='svg', px=px, W=W, H=H, nx=nx, ny=ny, els=clean), lambda: self.press('Load SVG'))


def job_session(rng, case):
    s = Session(rng)
    name = 'session_example.py'
    sys.argv = [os.path.join('somewhere', name)]
    saved = None
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        ok = s.open()
        if not ok:
            break
        for _ in range(rng.randint(4, 26)):
            a = rng.choice(['draw']*5 + ['pick']*3 + ['move']*4 + ['remove']*2 + ['mark']*2 + ['cancel', 'early'] + ['load']*(saved is not None)*2
                           + ['svg']*(rng.random() < .4))
            if a == 'load':
                ok = s.load(name.replace('.py', '.pickle'))
                s.frame(*saved)
            elif a == 'early':
                if len(s.events[-1]['marks']) == 2:
                    continue
                ok = s.ready(rng.random() < .5)
            else:
                ok = getattr(s, a)()
            if not ok:
                break
        if not ok:
            break
        for _ in range(2):
            ok = ok and s.mark()
        save = rng.random() < .8
        ok = ok and s.ready(save)
        if not ok:
            break
        if save:
            saved = (s.px, s.W, s.H) + next((e['nx'], e['ny']) for e in [dict(nx=s.gui.n_cells[0], ny=s.gui.n_cells[1])])
        s.ends()
    return [{'type': 'session', 'events': s.events, 'case': dict(case, key='session/' + '-'.join(e['a'] for e in s.events)[:80])}]


# ---------------------------------------------------------------- G-code of drawings
def job_code(rng, case):
    """a chain of lines and arcs, drawn in half pixels; arcs are two or more Bezier curves"""
    S = 1000
    x, y = rng.randrange(20, 600)/2., rng.randrange(20, 600)/2.
    t = [0., 0.] if rng.random() < .5 else [rng.randrange(-40, 40)/2., rng.randrange(-40, 40)/2.]
    n = rng.randint(1, 7)
    kinds = [rng.choice(['line', 'arc', 'arc']) for _ in range(n)]
    if 'arc' in kinds:
        t = [0., 0.]          # (only lines are said to take part in a translation)
    out, drawn = [], []
    f = lambda v: ('%.6f' % v).rstrip('0').rstrip('.') if rng.random() < .9 else '%.7f' % v
    for k, kind in enumerate(kinds):
        if kind == 'line':
            while True:
                X, Y = x + rng.randrange(-200, 200)/2., y + rng.randrange(-200, 200)/2.
                if abs(X-x) + abs(Y-y) > 4:
                    break
            if rng.random() < .3:
                X, Y = rng.choice([(x, Y + (10 if Y == y else 0)), (X + (10 if X == x else 0), y)])
            out.append('<line fill="none" stroke="#333333" stroke-width="10" x1="%s" y1="%s" x2="%s" y2="%s"/>' % (f(x-t[0]), f(y-t[1]), f(X-t[0]), f(Y-t[1])))
            drawn.append(dict(k='line', p=fixl([x, y], S), q=fixl([X, Y], S), c=[0, 0]))
        else:
            R = rng.randrange(10, 200)/2.
            a = rng.choice([rng.randrange(8)*math.pi/4, rng.uniform(-math.pi, math.pi)])
            m = rng.randint(2, 5)
            step = rng.choice([math.pi/2, math.pi/4, rng.uniform(.2, math.pi/2)])
            m = min(m, int(5.6/step))
            if m < 2:
                m, step = 2, 1.
            s = rng.choice([-1, 1])*step
            cx, cy = x - R*math.cos(a), y - R*math.sin(a)
            pts = [(x, y)]
            hand = 4./3*math.tan(s/4)
            segs = []
            for j in range(m):
                b = a + s
                p0 = (cx + R*math.cos(a), cy + R*math.sin(a))
                p3 = (cx + R*math.cos(b), cy + R*math.sin(b))
                c1 = (p0[0] - hand*R*math.sin(a), p0[1] + hand*R*math.cos(a))
                c2 = (p3[0] + hand*R*math.sin(b), p3[1] - hand*R*math.cos(b))
                segs.append((p0, c1, c2, p3))
                a = b
            X, Y = segs[-1][3]
            far = math.hypot(X-x, Y-y)
            if k > 0 and far > 5 and rng.random() < .5:      # drawn from the other end
                segs = [q[::-1] for q in segs[::-1]]
            d = 'M%s,%s' % (f(segs[0][0][0]), f(segs[0][0][1]))
            for p0, c1, c2, p3 in segs:
                v = [f(q[j] - p0[j]) for q in (c1, c2, p3) for j in (0, 1)]
                d += 'c' + (rng.choice([',', ' ']).join(v) if rng.random() < .5 else ''.join((',' if i and not w.startswith('-') else '') + w for i, w in enumerate(v)))
            out.append('<path fill="none" stroke="#333333" stroke-width="10" d="%s"/>' % d)
            # downwards on paper: turning from x to y is clockwise
            drawn.append(dict(k='cw' if s > 0 else 'ccw', p=fixl([x, y], S), q=fixl([X, Y], S), c=fixl([cx, cy], S)))
        x, y = X, Y
    g = '<g transform="translate(%s,%s)"/>\n' % (f(t[0]), f(t[1])) if t != [0., 0.] else ''
    with open('chain.svg', 'w') as o:
        o.write('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="%s" width="600" height="600">\n%s%s\n</svg>\n' % (NS, g, '\n'.join(out)))
    root = tk.Tk()
    died, cmds = '', []
    try:
        gui = og.EnvironmentGUI(root)
        sys.modules['tkinter.filedialog'].answers[:] = ['chain.svg']
        root.answers[:] = ['yes']
        [w for w in root.widgets if isinstance(w, faketk.Button) and w.kw.get('text') == 'Load SVG'][-1].kw['command']()
        with open('chain_gcode.nc') as i:
            for l in i:
                w = l.split()
                c = dict(g=int(w[0][1:]), x=0, y=0, i=0, j=0)
                for q in w[1:]:
                    c[q[0].lower()] = fix(float(q[1:]), S)
                cmds.append(c)
    except (Exception, SystemExit) as err:
        died = '%s: %s' % (type(err).__name__, err)
    return [{'type': 'code', 'died': died, 'commands': cmds, 'drawn': drawn, 'case': dict(case, key='code/' + '-'.join(kinds), svg=out)}]


FAMS = {'session': job_session, 'code': job_code}


def job(j):
    fam, seed = j
    d = tempfile.mkdtemp(prefix='omgverif_draw_')
    os.chdir(d)
    try:
        with vlib.quiet():
            return FAMS[fam](random.Random(seed), {'job': [fam, seed]})
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    setup()
    ctx.design('DrawingModel', DESIGN % (4 if ctx.quick else 5), workers=8)
    f = 1 if ctx.quick else 12
    jobs = []
    for fam, n in (('session', 150), ('code', 120)):
        jobs += [(fam, ctx.rng.randrange(10**9)) for _ in range(n*f)]
    recs = []
    for j, (st, r) in zip(jobs, vlib.parallel(job, jobs, 8, 200)):
        if st != 'ok':
            ctx.violation('raises.' + j[0], str(r)[-900:], {'key': j[0], 'job': list(j)})
        else:
            recs += r
    ctx.judge('DrawingTrace', recs, shards=8)
    ctx.evals = sum(len(r.get('events', [0])) for r in recs)
    for r in recs[:1] + recs[-1:]:
        ctx.sample({k: r[k] for k in ('type', 'case')})


if __name__ == '__main__':
    vlib.main('C12', run)
