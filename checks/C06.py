"""Global planner: every path is drivable over free cells, and found exactly when one exists."""
import itertools
import vlib
from vlib import fix
og = None


def setup():
    global og
    og = vlib.import_repo()


def make_planner(W, H, cw, ch, pos, obstacles=(), options=None, start=None, goal=None):
    env = og.Environment(room={'shape': og.Rectangle(width=W*cw, height=H*ch), 'position': list(pos)},
                         obstacles=list(obstacles))
    start = start or [pos[0], pos[1]]
    goal = goal or [pos[0], pos[1]]
    opt = {} if options is None else options
    with vlib.quiet():
        return og.AStarPlanner(env, [W, H], start, goal, opt)


def centre(W, H, cw, ch, pos, c):
    return [pos[0] - 0.5*W*cw + (c[0]+0.5)*cw, pos[1] - 0.5*H*ch + (c[1]+0.5)*ch]


def to_cell(W, H, cw, ch, pos, p):
    x = (p[0] - (pos[0] - 0.5*W*cw))/cw - 0.5
    y = (p[1] - (pos[1] - 0.5*H*ch))/ch - 0.5
    rx, ry = int(round(x)), int(round(y))
    if abs(x-rx) > 1e-6 or abs(y-ry) > 1e-6:
        return [-99, -99]
    return [rx, ry]


def ask(pl, W, H, cw, ch, pos, s, g):
    q = {'s': list(s), 'g': list(g), 'path': [], 'res': 'path'}
    try:
        with vlib.quiet():
            path = pl.get_path(start=centre(W, H, cw, ch, pos, s), goal=centre(W, H, cw, ch, pos, g))
        q['path'] = [to_cell(W, H, cw, ch, pos, p) for p in path]
    except RuntimeError as e:
        q['res'] = 'nopath'
        q['msg'] = str(e)
    except Exception as e:
        q['res'] = 'error'
        q['msg'] = repr(e)
    return q


def grid_job(job):
    """all queries of one list of (W, H, cw, ch, pos, occ, pairs)"""
    setup()
    out = []
    for (W, H, cw, ch, pos, occ, pairs) in job:
        pl = make_planner(W, H, cw, ch, pos)
        pl.grid.block([list(c) for c in occ])
        qs = [ask(pl, W, H, cw, ch, pos, s, g) for s, g in pairs]
        out.append({'kind': 'q', 'W': W, 'H': H, 'occ': [list(c) for c in occ], 'qs': qs})
    return out


def run(ctx):
    setup()
    ctx.assumptions += [
        'cells are addressed through the planner\'s public interface (block, get_path)',
        'TLC is trusted to evaluate the specification']
    # the design: every 3x3 (thorough: also 4x3) occupancy, square and oblong cells
    tmpl = ('SPECIFICATION Spec\nCONSTANTS\n W = %d\n H = %d\n CW = %d\n CH = %d\n CD = %d\n'
            'INVARIANTS PathValid Complete Sound\n%sCHECK_DEADLOCK FALSE\n')
    ctx.design('AStar', tmpl % (3, 3, 10, 10, 14, ''), name='AStar_3x3', workers=8)
    ctx.design('AStar', tmpl % (3, 2, 10, 20, 22, 'PROPERTY Terminates\n'), name='AStar_3x2_live', workers=8)
    if not ctx.quick:
        ctx.design('AStar', tmpl % (4, 3, 10, 7, 12, ''), name='AStar_4x3', workers=8, timeout=3000, mem='12g')
    # conformance: the same space, every occupancy x start x goal of the 3x3 grid
    rng = ctx.rng
    jobs = []
    cells = list(itertools.product(range(3), range(3)))
    n_inst = 0
    for geo in ([(1., 1., (0., 0.))] if ctx.quick else [(1., 1., (0., 0.)), (0.7, 1.3, (2., -1.5))]):
        cw, ch, pos = geo
        for m in range(2**9):
            occ = [c for k, c in enumerate(cells) if m >> k & 1]
            fr = [c for c in cells if c not in occ]
            pairs = [(s, g) for s in fr for g in fr]
            if pairs:
                n_inst += len(pairs)
                jobs.append((3, 3, cw, ch, pos, occ, pairs))
    # long thin grids, exhaustively: corridors and dead ends
    for (W, H) in [(5, 1), (1, 5), (4, 2), (2, 4)]:
        cs = list(itertools.product(range(W), range(H)))
        for m in range(2**len(cs)):
            occ = [c for k, c in enumerate(cs) if m >> k & 1]
            fr = [c for c in cs if c not in occ]
            pairs = [(s, g) for s in fr for g in fr]
            if len(pairs) > 8:
                pairs = rng.sample(pairs, 8)
            if pairs:
                n_inst += len(pairs)
                jobs.append((W, H, 0.5, 0.8, (1., 2.), occ, pairs))
    # larger random mazes
    for _ in range(150 if ctx.quick else 1500):
        W, H = rng.randint(3, 9), rng.randint(3, 9)
        dens = rng.choice([0.15, 0.3, 0.4, 0.5])
        cs = list(itertools.product(range(W), range(H)))
        occ = [c for c in cs if rng.random() < dens]
        fr = [c for c in cs if c not in occ]
        if len(fr) < 2:
            continue
        pairs = [tuple(rng.sample(fr, 2)) for _ in range(6)]
        pos = (round(rng.uniform(-5, 5), 2), round(rng.uniform(-5, 5), 2))
        n_inst += len(pairs)
        jobs.append((W, H, rng.choice([0.25, 0.5, 1., 1.7]), rng.choice([0.25, 0.5, 1., 1.7]), pos, occ, pairs))
    # serpentine mazes: one long way only
    for n in (5, 7):
        occ = [(x, y) for y in range(1, n, 2) for x in range(n) if x != (0 if (y//2) % 2 else n-1)]
        jobs.append((n, n, 1., 0.6, (0., 0.), occ, [((0, 0), (n-1 if False else 0, n-1)), ((0, n-1), (0, 0)),
                                                    ((n-1, n-1), (0, 0))]))
    parts = [jobs[k::8] for k in range(8)]
    recs = []
    for st, r in vlib.parallel(grid_job, parts, 8, 600):
        if st != 'ok':
            ctx.violation('planner.raises', r[-1500:], {'key': 'worker'})
            continue
        recs += r
    ctx.evals = sum(len(r['qs']) for r in recs)
    ctx.judge('GridTrace', recs, shards=8)
    # the start and goal a user gives are snapped to the nearest free cell
    snaps = snap_records(ctx)
    ctx.judge('GridTrace', snaps, name='GridSnap', shards=4)
    ctx.evals += len(snaps)
    ctx.sample({k: recs[len(recs)//2][k] for k in ('W', 'H', 'occ')})
    ctx.sample(recs[len(recs)//2]['qs'][:2])
    ctx.sample(snaps[0])
    ctx.cov.update({'path_queries': sum(len(r['qs']) for r in recs), 'snap_queries': len(snaps),
                    'paths_found': sum(q['res'] == 'path' for r in recs for q in r['qs']),
                    'paths_refused': sum(q['res'] == 'nopath' for r in recs for q in r['qs']),
                    'occupancies': len(recs), 'exhaustive': True,
                    'rule': 'all 512 occupancies of 3x3 with all start/goal pairs of free cells, all '
                            'occupancies of 5x1, 1x5, 4x2, 2x4, random mazes up to 9x9'})


def snap_records(ctx):
    rng = ctx.rng
    out = []
    for _ in range(250 if ctx.quick else 2500):
        W, H = rng.randint(1, 6), rng.randint(1, 6)
        hw, hh = rng.choice([(250, 250), (500, 200), (200, 450), (300, 301)])
        x0, y0 = rng.randint(-3000, 3000), rng.randint(-3000, 3000)
        cw, ch = 2*hw/1000., 2*hh/1000.
        pos = (x0/1000. + W*cw/2, y0/1000. + H*ch/2)
        cs = list(itertools.product(range(W), range(H)))
        occ = [c for c in cs if rng.random() < rng.choice([0., 0.3, 0.7])]
        pl = make_planner(W, H, cw, ch, pos)
        pl.grid.block([list(c) for c in occ])
        for _ in range(6):
            p = [rng.randint(x0-200, x0 + 2*hw*W + 200), rng.randint(y0-200, y0 + 2*hh*H + 200)]
            try:
                cell = list(pl.grid.move_to_gridpoint([p[0]/1000., p[1]/1000.]))
            except Exception as e:
                ctx.violation('snap.raises', repr(e), {'p': p, 'occ': occ, 'W': W, 'H': H})
                continue
            out.append({'kind': 'snap', 'W': W, 'H': H, 'hw': hw, 'hh': hh, 'x0': x0, 'y0': y0,
                        'occ': [list(c) for c in occ], 'p': p, 'cell': [int(c) for c in cell],
                        'tol': 4*max(hw, hh)})
    return out


if __name__ == '__main__':
    vlib.main('C06', run)
