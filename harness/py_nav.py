"""Conformance harness: the Python module.  Drives pyplanning and records traces in the
formats of the specifications of the parts (one JSON object per line, see vt.h).

Modes: plan, occ, raster, frame, valid, vpath, pose, path, space, rs, gvd, hyb, api, life.
"""
import argparse, gc, json, math, os, random, re, signal, sys, tempfile, weakref

ap = argparse.ArgumentParser()
for k in ('out', 'tier', 'mode'):
    ap.add_argument('--' + k, default='')
for k in ('seed', 'shard', 'shards', 'cases'):
    ap.add_argument('--' + k, type=int, default=1)
A = ap.parse_args()
OUT = open(A.out, 'w')
pi = math.pi


def line(e, **kw):
    OUT.write(json.dumps(dict(e=e, **kw), separators=(',', ':')) + '\n')


def fx(v, s=1e4):
    v = v * s
    if v != v:
        return 2147483646
    return int(max(-2147483645, min(2147483645, math.floor(v + 0.5) if v >= 0 else -math.floor(-v + 0.5))))


class Rng(random.Random):
    def chance(self, a, b):
        return self.randint(1, b) <= a

    def rng(self, a, b):
        return self.randint(a, b)

    def real(self, a, b):
        return self.uniform(a, b)


def P(x, y, t):
    return pp.Pose2d(x, y, t)


def pose(p, s=1e4):
    return [fx(p.x(), s), fx(p.y(), s), fx(p.theta, s)]


def sgn(d):
    return 1 if d == pp.Direction.FORWARD else -1 if d == pp.Direction.BACKWARD else 0


# --------------------------------------------------------------- obstacles
def obstacle(shape, x, y, t):
    o = pp.Obstacle()
    o.set_shape(shape)
    o.set_pose(P(x, y, t))
    return o


def cell_obstacle(m, res, r, c):
    p = m.grid_cell_to_world_position(pp.GridCellPosition(r, c))
    return obstacle(pp.PolygonShape([pp.Point2d(0.0, 0.0)]), p.x() + res / 2, p.y() + res / 2, 0.0)


def random_shape(g, w, h):
    k = g.rng(0, 5)
    if k == 0:
        return pp.PolygonShape([pp.Point2d(0.0, 0.0)])
    if k == 1:
        return pp.RectangleShape(g.real(0.1, w / 2), g.real(0.1, h / 2))
    if k == 2:
        return pp.RegularPolygonShape(g.real(0.2, w / 3 + 0.2), g.rng(3, 7))
    if k == 3:
        return pp.CircleShape(g.real(0.2, w / 3 + 0.2), g.rng(3, 9))
    if k == 4:
        return pp.PolygonShape([pp.Point2d(g.real(-w / 2, w / 2), g.real(-h / 2, h / 2)) for _ in range(g.rng(1, 5))])
    c = pp.CompositeShape()
    c.add(pp.RectangleShape(g.real(0.1, w / 2), g.real(0.1, h / 2)))
    c.add(pp.PolygonShape([pp.Point2d(g.real(-2, 2), g.real(-2, 2)), pp.Point2d(g.real(-2, 2), g.real(-2, 2))]))
    return c


def random_obstacle(g, w, h):
    return obstacle(random_shape(g, w, h), g.real(-w * 0.7, w * 0.7), g.real(-h * 0.7, h * 0.7), g.real(-3, 3))


def occupied(m):
    R, C = m.rows(), m.columns()
    return [r * C + c for r in range(R) for c in range(C) if m.is_occupied(pp.GridCellPosition(r, c))]


# ------------------------------------------------------------ grid planning
def plan_case(g, i):
    rows, cols = g.rng(1, 8), g.rng(1, 8)
    straight, diag = g.rng(1, 9), g.rng(1, 12)
    price = [g.rng(0, 6) if g.chance(1, 3) else 0 for _ in range(rows * cols)]
    cells = set()
    own = g.chance(1, 2)
    if own:
        class Map(pp.OccupancyMap):
            def __init__(self):
                pp.OccupancyMap.__init__(self, 1.0)

            def IsOccupied(self, c):
                return (c.row, c.col) in cells
        m = Map()
    else:
        m = pp.ObstacleListOccupancyMap(1.0)
    m.initialize_size(float(rows), float(cols))
    line('case', id=i, rows=m.rows(), cols=m.columns(), wr=rows, wc=cols)
    line('cost', straight=straight, diag=diag, price=price)

    def cost(a, b):
        return float((diag if a.row != b.row and a.col != b.col else straight) + price[b.row * cols + b.col])

    def hv(s, t):
        dr, dc = abs(s.row - t.row), abs(s.col - t.col)
        lo, hi = min(dr, dc), max(dr, dc)
        return float(lo * min(diag, 2 * straight) + (hi - lo) * min(straight, diag))

    class H(pp.AStarHeuristicN2):
        def SetGoal(self, goal):
            self.goal = pp.GridCellPosition(goal.row, goal.col)

        def GetHeuristicValue(self, s):
            return hv(s, self.goal)

    def make():
        uni, bi = pp.AStarN2(), pp.BidirectionalAStarN2()
        uni.initialize(pp.AStarStatePropagatorFcnN2(m, cost), H() if g.chance(1, 2) else pp.AStarHeuristicFcnN2(hv))
        if g.chance(1, 2):
            a, b = pp.AStarHeuristicFcnN2(hv), pp.AStarHeuristicFcnN2(hv)
            hf, hr = pp.BidirectionalAStarN2.get_average_heuristic_pair(a, b)
        else:
            hf = hr = None
            z = lambda s, t: 0.0
            hf, hr = pp.AStarHeuristicFcnN2(z), pp.AStarHeuristicFcnN2(z)
        bi.initialize(pp.AStarStatePropagatorFcnN2(m, cost), pp.AStarStatePropagatorFcnN2(m, lambda a, b: cost(b, a)), hf, hr)
        return uni, bi
    uni, bi = make()
    gc.collect()
    obs = []
    for r in range(g.rng(1, 3)):
        for _ in range(g.rng(0, rows * cols // 3)):
            x, y = g.rng(0, rows - 1), g.rng(0, cols - 1)
            if own:
                cells.add((x, y))
            else:
                o = cell_obstacle(m, 1.0, x, y)
                m.add_obstacle(o)
                obs.append(o)
        if r > 0:
            for _ in range(3):
                if own and cells:
                    cells.discard(g.choice(sorted(cells)))
                elif obs:
                    m.remove_obstacle(obs.pop(g.rng(0, len(obs) - 1)))
        # own maps answer from `cells`; others are asked
        occ = [[x, y] for x in range(rows) for y in range(cols) if ((x, y) in cells if own else m.is_occupied(pp.GridCellPosition(x, y)))]
        line('occ', cells=occ)
        free = [(x, y) for x in range(rows) for y in range(cols) if [x, y] not in occ]
        if not free:
            continue
        for _ in range(2):
            s, t = g.choice(free), g.choice(free)
            two = g.chance(1, 2)
            alg = bi if two else uni
            alg.set_init_state(pp.GridCellPosition(*s))
            alg.set_goal_state(pp.GridCellPosition(*t))
            st = alg.search_path()
            c = alg.get_optimal_cost()
            line('plan', bi=two, s=list(s), t=list(t), ok=st == pp.Status.SUCCESS, path=[[x.row, x.col] for x in alg.get_path()],
                 cost=-1 if math.isinf(c) else int(c) if c == int(c) else -2)
            ex = alg.get_explored_states()
            f, b = ex if two else (ex, [])
            line('explored', bi=two, ok=st == pp.Status.SUCCESS, s=list(s), t=list(t), fwd=sorted([x.row, x.col] for x in f), bwd=sorted([x.row, x.col] for x in b),
                 path=[[x.row, x.col] for x in alg.get_path()])


# --------------------------------------------------------------- occupancy
def occ_case(g, i):
    rows, cols = g.rng(1, 7), g.rng(1, 7)
    res = 1.0 if g.chance(1, 2) else 0.5
    m = pp.ObstacleListOccupancyMap(res)
    if g.chance(1, 3):
        m.set_position(pp.Point2d(g.real(-1, 1), g.real(-1, 1)))
    m.initialize_size(rows * res, cols * res)
    line('case', id=i, rows=m.rows(), cols=m.columns(), wr=rows, wc=cols)
    pool = [random_obstacle(g, rows * res, cols * res) for _ in range(g.rng(1, 5))]
    for _ in range(g.rng(3, 14)):
        o, what = g.rng(0, len(pool) - 1), g.rng(0, 9)
        if what <= 4:
            cells = [c.row * cols + c.col if 0 <= c.row < rows and 0 <= c.col < cols else -2 for c in pool[o].get_boundary_grid_cell_position(m)]
            line('add', o=o, ok=m.add_obstacle(pool[o]), cells=cells)
        elif what <= 7:
            line('remove', o=o, ok=m.remove_obstacle(pool[o]))
        else:
            pool[o].set_pose(P(g.real(-rows * res, rows * res), g.real(-cols * res, cols * res), g.real(-3, 3)))
            if g.chance(1, 3):
                m.update()
            line('move', o=o)
        vals, oc = [], []
        for x in range(rows):
            for y in range(cols):
                vals.append(m.get_occupancy_value(x, y) if g.chance(1, 2) else m.get_occupancy_value(pp.GridCellPosition(x, y)))
                oc.append(1 if m.is_occupied(pp.GridCellPosition(x, y)) else 0)
        line('grid', vals=vals, occ=oc, num=m.get_num_obstacles())


# ------------------------------------------------------------------ raster
def raster_case(g, i):
    rows, cols = g.rng(1, 12), g.rng(1, 12)
    res = g.choice([1.0, 0.5, 2.0, 0.25])
    m = pp.ObstacleListOccupancyMap(res)
    pos = [0.0 if g.chance(1, 2) else g.rng(-40, 40) * 0.25 for _ in range(2)]
    m.set_position(pp.Point2d(*pos))
    m.initialize_size(rows * res, cols * res)
    corner = [pos[0] - rows * res / 2, pos[1] - cols * res / 2]
    line('case', id=i, rows=m.rows(), cols=m.columns())
    for _ in range(g.rng(1, 5)):
        for tries in range(400):
            kind = g.rng(0, 4)
            parts, sizes, lv = [], [], []

            def part(kd):
                if kd == 0:
                    v = [(g.rng(-900, 900), g.rng(-900, 900)) for _ in range(g.rng(1, 6))]
                    s = pp.PolygonShape([pp.Point2d(x / 100 * res, y / 100 * res) for x, y in v])
                elif kd == 1:
                    a, b = 2 * g.rng(5, 600), 2 * g.rng(5, 600)
                    v = [(a / 2, b / 2), (-a / 2, b / 2), (-a / 2, -b / 2), (a / 2, -b / 2)]
                    s = pp.RectangleShape(a / 100 * res, b / 100 * res)
                else:
                    r, n = g.rng(30, 800), g.rng(3, 9)
                    rr = r if kd == 2 else r / math.cos(pi / n)
                    v = [(rr * math.cos(2 * pi * k / n), rr * math.sin(2 * pi * k / n)) for k in range(n)]
                    s = (pp.RegularPolygonShape if kd == 2 else pp.CircleShape)(r / 100 * res, n)
                parts.append(s)
                sizes.append(len(v))
                lv.extend(v)
            if kind < 4:
                part(kind)
            else:
                for _ in range(g.rng(1, 3)):
                    part(g.rng(0, 3))
            th = 0.0 if g.chance(1, 3) else g.rng(-2, 2) * pi / 2 if g.chance(1, 3) else g.real(-pi, pi)
            px, py = g.rng(-200, rows * 100 + 200), g.rng(-200, cols * 100 + 200)
            ok = True
            for x, y in lv:
                for c in (px + math.cos(th) * x - math.sin(th) * y, py + math.sin(th) * x + math.cos(th) * y):
                    f = c - 100 * math.floor(c / 100)
                    ok = ok and 6 <= f <= 94
            if not ok:
                continue
            if kind < 4:
                sh = parts[0]
            else:
                sh = pp.CompositeShape()
                for p in parts:
                    sh.add(p)
            o = obstacle(sh, corner[0] + px / 100 * res, corner[1] + py / 100 * res, th)
            wv = [[fx((p.x() - corner[0]) / res, 100), fx((p.y() - corner[1]) / res, 100)] for p in o.get_boundary_world_position()]
            line('shape', kind=str(kind), parts=sizes, verts=[[fx(x, 1), fx(y, 1)] for x, y in lv], px=px, py=py, cos=fx(math.cos(th)), sin=fx(math.sin(th)),
                 world=wv, cells=[[c.row, c.col] for c in o.get_boundary_grid_cell_position(m)])
            break


# ------------------------------------------------------------------- frame
def frame_case(g, i):
    unit, res = 64, g.choice([16, 32, 64, 128, 8, 96])
    m = pp.ObstacleListOccupancyMap(res / unit)
    line('case', id=i, res=res, dyadic=True)
    st = dict(x=0, y=0, w=0, h=0)

    def position():
        st['x'], st['y'] = g.rng(-2000, 2000) * 2, g.rng(-2000, 2000) * 2
        m.set_position(pp.Point2d(st['x'] / unit, st['y'] / unit))
        p = m.get_position()
        line('position', x=st['x'], y=st['y'], gx=fx(p.x(), unit), gy=fx(p.y(), unit))

    def size():
        one = lambda: 2 * g.rng(1, 24) * (res // 2 if g.chance(1, 3) else g.rng(4, 40))
        st['w'], st['h'] = one(), one()
        m.initialize_size(st['w'] / unit, st['h'] / unit)
        line('size', w=st['w'], h=st['h'], rows=m.rows(), cols=m.columns())
    if g.chance(1, 2):
        position()
    size()
    for _ in range(g.rng(3, 10)):
        if g.chance(1, 5):
            position()
        if g.chance(1, 10):
            size()

        def coord(o, s):
            if g.chance(1, 5):
                return o + g.rng(-2, s // res + 2) * res + g.rng(-1, 1)
            return o + g.rng(-2 * res, s + 2 * res)
        x, y = coord(st['x'] - st['w'] // 2, st['w']), coord(st['y'] - st['h'] // 2, st['h'])
        w = pp.Point2d(x / unit, y / unit)
        lo = m.world_position_to_local_position(w)
        back = m.local_position_to_world_position(lo)
        u, b = m.world_position_to_grid_cell(w, False), m.world_position_to_grid_cell(w, True)
        lu, lb = m.local_position_to_grid_cell(lo, False), m.local_position_to_grid_cell(lo, True)
        cw, cl = m.grid_cell_to_world_position(u), m.grid_cell_to_local_position(u)
        again = m.world_position_to_grid_cell(cw + pp.Point2d(res / unit / 2, res / unit / 2), False)
        xy = lambda p: [fx(p.x(), unit), fx(p.y(), unit)]
        rc = lambda c: [c.row, c.col]
        line('q', x=x, y=y, local=xy(lo), back=xy(back), u=rc(u), b=rc(b), lu=rc(lu), lb=rc(lb), cw=xy(cw), cl=xy(cl), again=rc(again),
             **{'in': m.is_inside_map(w)}, incell=m.is_inside_map(u))


# -------------------------------------------------------------- validation
def valid_case(g, i):
    S, res = 64.0, g.choice([64, 32, 128, 48])
    rows, cols = g.rng(1, 9), g.rng(1, 9)
    hw = max(res // 2, rows * res // 2 - (g.rng(0, res // 2 - 1) if g.chance(1, 3) else 0))
    hh = max(res // 2, cols * res // 2 - (g.rng(0, res // 2 - 1) if g.chance(1, 3) else 0))
    tl, tu = (-202 if g.chance(1, 2) else g.rng(-200, 0)), (202 if g.chance(1, 2) else g.rng(0, 200))
    lo, hi = P(-hw / S, -hh / S, tl / S), P(hw / S, hh / S, tu / S)
    space = pp.StateSpaceSE2(lo, hi) if g.chance(1, 2) else pp.StateSpaceSE2([lo, hi])
    tlo, thi = space.bounds[0].theta, space.bounds[1].theta
    m = pp.ObstacleListOccupancyMap(res / S)
    before = g.chance(1, 2)
    cx, cy = (0 if g.chance(1, 2) else g.rng(-500, 500)), (0 if g.chance(1, 2) else g.rng(-500, 500))
    if before:
        m.set_position(pp.Point2d(cx / S, cy / S))
    v = pp.StateValidatorOccupancyMap(space, m)
    if not before:
        m.set_position(pp.Point2d(cx / S, cy / S))
    if g.chance(1, 2):
        m = v.get_occupancy_map()
    free = pp.StateValidatorSE2Free(v.state_space)
    line('case', id=i, rows=m.rows(), cols=m.columns(), res=res, hw=hw, hh=hh, cx=cx, cy=cy, tl=fx(tlo, 1e6), tu=fx(thi, 1e6))
    on = []
    for k in range(g.rng(1, 3)):
        for _ in range(g.rng(0 if k == 0 else 1, 4)):
            if on and g.chance(2, 5):
                m.remove_obstacle(on.pop(g.rng(0, len(on) - 1)))
            else:
                o = random_obstacle(g, 2 * hw / S, 2 * hh / S) if g.chance(1, 2) else cell_obstacle(m, res / S, g.rng(0, m.rows() - 1), g.rng(0, m.columns() - 1))
                m.add_obstacle(o)
                on.append(o)
        m.update()
        safe = g.rng(0, 4) * res if g.chance(1, 4) else g.rng(0, 5 * res)
        v.min_safe_radius = safe / S
        line('occ', cells=occupied(m), safe=safe)
        for _ in range(g.rng(2, 14)):
            x, y = cx + g.rng(-hw - res, hw + res), cy + g.rng(-hh - res, hh + res)
            if g.chance(1, 6):
                x = cx + g.choice([1, -1]) * hw + g.rng(-1, 1)
            if g.chance(1, 6):
                y = cy + g.choice([1, -1]) * hh + g.rng(-1, 1)
            th = g.rng(-201, 201) / S if g.chance(1, 2) else g.real(-3.14, 3.14)
            if abs(th - tlo) < 1e-4:
                th += 1e-3
            if abs(th - thi) < 1e-4:
                th -= 1e-3
            if g.chance(1, 6):
                th = g.choice([tlo, thi])
            p = P(x / S, y / S, th)
            line('state', x=x, y=y, th=fx(p.theta, 1e6), ok=v.is_state_valid(p), free=free.is_state_valid(P(p.x() - cx / S, p.y() - cy / S, th)))


def vpath_case(g, i):
    res = g.choice([1000, 500, 250])
    hw, hh = g.rng(8, 32) * 125, g.rng(8, 32) * 125
    space = pp.StateSpaceSE2(P(-hw / 1000, -hh / 1000, -pi), P(hw / 1000, hh / 1000, pi))
    m = pp.ObstacleListOccupancyMap(res / 1000)
    c = [0.0 if g.chance(1, 2) else g.rng(-8, 8) * 1.0 for _ in range(2)]
    m.set_position(pp.Point2d(*c))
    v = pp.StateValidatorOccupancyMap(space, m)
    safe, mi = g.rng(0, 12) * 125, (100 if g.chance(1, 2) else g.rng(1, 8) * 50)
    v.min_safe_radius = safe / 1000
    v.min_path_interpolation_distance = mi / 1000
    for _ in range(g.rng(0, 4)):
        if g.chance(1, 2):
            o = cell_obstacle(m, res / 1000, g.rng(0, m.rows() - 1), g.rng(0, m.columns() - 1))
        else:
            o = obstacle(pp.RectangleShape(g.real(0.2, 4), g.real(0.2, 1)), c[0] + g.real(-hw, hw) / 1000, c[1] + g.real(-hh, hh) / 1000, g.real(-3, 3))
        m.add_obstacle(o)
    m.update()
    line('case', id=i, rows=m.rows(), cols=m.columns(), res=res, hw=hw, hh=hh, safe=safe, minI=mi)
    line('occ', cells=occupied(m))
    for _ in range(g.rng(1, 5)):
        ex = 1.0 if g.chance(1, 2) else 1.2
        rp = lambda: P(c[0] + g.real(-hw, hw) / 1000 * ex, c[1] + g.real(-hh, hh) / 1000 * ex, g.real(-3.1, 3.1))
        a, b = rp(), rp()
        k = g.rng(0, 3)
        if k <= 1:
            p = pp.PathSE2(a, b)
        elif k == 2:
            p = pp.PathConnectionReedsShepp(g.real(0.8, 2), 0.0, 1.0, 1.0).connect(a, b)
        else:
            p = pp.PathConstantSteer(pp.KinematicBicycleModel(1.5, 0.5), a, g.real(-0.6, 0.6), g.real(0.2, 8), pp.Direction.FORWARD if g.chance(1, 2) else pp.Direction.BACKWARD)
        L = p.get_length()
        n = min(400, max(1, math.ceil(L / 0.05)))
        s = []
        for j in range(n + 1):
            q = p.interpolate(j / n)
            s.append([fx(L * j / n, 1000), fx(q.x() - c[0], 1000), fx(q.y() - c[1], 1000)])
        line('pathb', len=fx(L, 1000), ok=v.is_path_valid(p, 0.0), v0=v.is_state_valid(p.interpolate(0.0)), v1=v.is_state_valid(p.interpolate(1.0)), s=s)
        line('free', ok=pp.StateValidatorSE2Free(space).is_path_valid(p, 0.0), last=1000)


# ------------------------------------------------------------------- poses
def pose_case(g, i):
    line('case', id=i)
    for _ in range(5):
        def rp():
            t = g.rng(-2, 2) * pi / 2 if g.chance(1, 4) else g.real(-pi, pi)
            return P(g.real(-9, 9), g.real(-9, 9), t) if g.chance(1, 2) else pp.Pose2d(pp.Point2d(g.real(-9, 9), g.real(-9, 9)), t)
        p5 = lambda p: pose(p) + [fx(math.cos(p.theta)), fx(math.sin(p.theta))]
        a, b, c = rp(), rp(), rp()
        line('op', a=p5(a), b=p5(b), sum=p5(a + b), dif=p5(b - a), minus=p5((a + b) - a), plus=p5(a + (b - a)), l=p5((a + b) + c), r=p5(a + (b + c)),
             id=p5(a + P(0.0, 0.0, 0.0)), self=p5(a - a))
        dy = lambda: P(g.rng(-1, 1) / 2, g.rng(-1, 1) / 2, g.rng(-2, 2) / 4)
        u, v = dy(), dy()
        line('eq', u=pose(u, 4), v=pose(v, 4), eq=u == v, ne=u != v, eqto=u == v, hash=True, peq=u.position == v.position, phash=u.position != v.position or u.position == v.position)
        th = g.real(-60, 60)
        w = P(1.0, 2.0, th)
        line('wrap', th=fx(th), made=fx(w.theta), wrapped=fx(w.theta), **{'in': -pi - 1e-9 <= w.theta <= pi + 1e-9})
        # plain points, and the parts of a pose
        x, y, x2, y2 = (g.rng(-9, 9) for _ in range(4))
        q, r = pp.Point2d(x * 0.5, y * 0.5), pp.Point2d(x2 * 0.5, y2 * 0.5)
        xy = lambda p: [fx(p.x(), 2), fx(p.y(), 2)]
        line('pt', a=[x, y], b=[x2, y2], sum=xy(q + r), dif=xy(q - r), eq=q == r, ne=q != r)
        z = P(0.0, 0.0, 0.0)
        z.position = q
        z.theta = 0.25 * (x % 5)
        line('set', want=[x, y, x % 5], got=[fx(z.position.x(), 2), fx(z.position.y(), 2), fx(z.theta, 4)], xy=[fx(z.x(), 2), fx(z.y(), 2)])
        cell = pp.GridCellPosition(x, y)
        d = pp.GridCellPosition()
        d.row, d.col = x2, y2
        line('rc', want=[x, y, x2, y2], got=[cell.row, cell.col, d.row, d.col], shown=str(x) in repr(cell) and str(y) in repr(cell))


# ------------------------------------------------------------------- paths
N = 24


def path_case(g, i):
    kind = g.choice([0, 2])
    rp = lambda: P(g.real(-9, 9), g.real(-9, 9), g.rng(-2, 2) * pi / 2 if g.chance(1, 5) else g.real(-pi, pi))
    a, b, rear = rp(), rp(), True
    if kind == 0:
        p = pp.PathSE2(a, b) if g.chance(1, 2) else pp.PathConnectionSE2().connect(a, b)
        pieces = [[fx(math.hypot(b.x() - a.x(), b.y() - a.y())), 0, 0]]
    else:
        ln, back, wb, ahead = (0.0 if g.chance(1, 12) else g.real(0.05, 12)), g.chance(1, 2), g.real(1, 4), (0.0 if g.chance(1, 2) else g.real(0, 2))
        st = 0.0 if g.chance(1, 5) else g.real(-0.7, 0.7)
        p = pp.PathConstantSteer(pp.KinematicBicycleModel(wb, ahead), a, st, ln, pp.Direction.BACKWARD if back else pp.Direction.FORWARD)
        pieces = [[max(1, fx(ln)) if ln > 0 else 0, -1 if back else 1, fx(math.tan(st) / wb)]]
        rear = ahead == 0
    line('case', kind=kind, a=pose(a), b=pose(p.get_final_state()))
    if kind == 2:
        line('steer', want=fx(st), got=fx(p.steering))
    L = p.get_length()
    t, pts = [], []
    for k in range(N + 1):
        q = p.interpolate(k / N)
        mid = 0 if k == 0 else p.interpolate((k - 0.5) / N).theta
        t.append(L * k / N)
        pts.append([fx(L * k / N)] + pose(q) + [fx(math.cos(mid)), fx(math.sin(mid))])
    line('make', pts=pts, pieces=pieces, rear=rear)
    cur = N

    def summary(ev):
        cusps = [] if kind == 0 else [fx(c) for c in sorted(p.get_cusp_point_ratios())]
        line(ev, j=cur + 1, len=fx(p.get_length()), init=pose(p.get_initial_state()), fin=pose(p.get_final_state()), at0=pose(p.interpolate(0.0)), at1=pose(p.interpolate(1.0)),
             cusps=cusps, directed=kind != 0)

    def query():
        L = p.get_length()
        for _ in range(4):
            j = g.rng(0, cur)
            q = min(1.0, t[j] / L) if L > 0 else g.random()
            if j == cur:
                q = 1.0
            line('q', j=j + 1, p=pose(p.interpolate(q)), dir=0 if kind == 0 else sgn(p.get_direction(q)), directed=kind != 0)
        qs = [g.random() for _ in range(3)]
        line('many', one=[pose(p.interpolate(q)) for q in qs], all=[pose(x) for x in p.interpolate(qs)])
    summary('sum')
    query()
    for _ in range(g.rng(1, 3)):
        j = cur if g.chance(1, 10) else g.rng(1 if cur > 4 else 0, cur)
        L = p.get_length()
        r = min(1.0, t[j] / L) if L > 0 else 1.0
        if j == cur or L == 0:
            r, j = 1.0, cur
        p.truncate(r)
        cur = j
        summary('trunc')
        query()


# ------------------------------------------------------------- state space
def space_case(g, i):
    lb, ub = [], []
    for k in range(3):
        a = g.rng(-20, 10) if k == 2 else g.rng(-80, 60)
        b = a + (0 if g.chance(1, 10) else g.rng(0, 10) if k == 2 else g.rng(0, 60))
        lb.append(2 * a)
        ub.append(2 * b)

    def val(c):
        base = math.floor((c + 1) / 2) / 8
        return base if c == 2 * math.floor((c + 1) / 2) else math.nextafter(base, -1e300)

    def mk(v):
        s = P(v[0], v[1], 0.0)
        s.theta = v[2]
        return s
    get = lambda s: [s.x(), s.y(), s.theta]
    lo, hi = mk([val(c) for c in lb]), mk([val(c) for c in ub])
    sp = pp.StateSpaceSE2(lo, hi) if g.chance(1, 2) else pp.StateSpaceSE2([lo, hi])
    line('case', n=3, lb=lb, ub=ub)
    line('bounds', lb=[fx(x, 16) for x in get(sp.bounds[0])], ub=[fx(x, 16) for x in get(sp.bounds[1])], dim=3)
    for _ in range(20):
        c = []
        for k in range(3):
            w = g.rng(0, 9)
            c.append([lb[k], ub[k], lb[k] - 1, ub[k] + 1, lb[k] + 1, ub[k] - 1][w] if w < 6 else lb[k] + g.rng(0, ub[k] - lb[k]) if w < 9 else lb[k] + g.rng(-60, 120))
        s = mk([val(x) for x in c])
        code = lambda v, k: next((x for x in (c[k], lb[k], ub[k]) if val(x) == v), 2147483647)
        inn = sp.validate_bounds(s)
        e1 = mk(get(s))
        sp.enforce_bounds(e1)
        e2 = mk(get(e1))
        sp.enforce_bounds(e2)
        line('state', s=c, f=[code(v, k) for k, v in enumerate(get(e1))], ein=sp.validate_bounds(e1), e2=[code(v, k) for k, v in enumerate(get(e2))], **{'in': inn})
    n, bad, bucket = 600, 0, [[0] * 10 for _ in range(3)]
    l, u = [val(x) for x in lb], [val(x) for x in ub]
    for _ in range(n):
        v = get(sp.sample_uniform())
        bad += not all(l[k] - 1e-12 <= v[k] <= u[k] + 1e-12 for k in range(3))
        for k in range(3):
            if u[k] > l[k]:
                bucket[k][max(0, min(9, int((v[k] - l[k]) / (u[k] - l[k]) * 10)))] += 1
    line('uniform', n=n, got=n, bad=bad, buckets=bucket)
    mean = [g.real(l[k], u[k]) for k in range(3)]
    dev = [0.0 if g.chance(1, 6) else g.real(0.01, 0.1) for _ in range(3)]
    bad, stat = 0, [[0] * 4 for _ in range(3)]
    for _ in range(n):
        v = get(sp.sample_gaussian(mk(mean), mk(dev)))
        bad += not all(l[k] - 1e-12 <= v[k] <= u[k] + 1e-12 for k in range(3))
        for k in range(3):
            for q, ok in enumerate((v[k] < mean[k], v[k] > mean[k], abs(v[k] - mean[k]) <= dev[k], abs(v[k] - mean[k]) <= 1e-9)):
                stat[k][q] += ok
    line('gauss', n=n, got=n, bad=bad, stat=stat, free=[int(mean[k] - 6 * dev[k] > l[k] and mean[k] + 6 * dev[k] < u[k] and dev[k] > 0) for k in range(3)],
         zero=[int(dev[k] == 0) for k in range(3)])


# ------------------------------------------------------------- Reeds-Shepp
BASE = ["LfSfLf", "LfSfRf", "LfRbLf", "LfRbLb", "LfRfLb", "LfRufLubRb", "LfRubLubRf", "LfRbpSbLb", "LfRbpSbRb", "LfSfRfpLb", "LfSfLfpRb", "LfRbpSbLbpRf"]


def word(w, t, u, v):
    s, ms, k = BASE[w // 4], [], 0
    while k < len(s):
        st = {'L': 1, 'R': -1, 'S': 0}[s[k]]
        k += 1
        uu, p = st == 0, False
        if s[k] == 'u':
            uu = True
            k += 1
        d = 1 if s[k] == 'f' else -1
        k += 1
        if k < len(s) and s[k] == 'p':
            p = True
            k += 1
        ms.append([st, d, pi / 2 if p else u if uu else t if not ms else -1])
    if ms[-1][2] < 0:
        ms[-1][2] = v
    for m in ms:
        if m[2] < 0:
            m[2] = u
        if w % 4 & 1:
            m[1] = -m[1]
        if w % 4 & 2:
            m[0] = -m[0]
    return ms


def drive(p):
    """Lengths driven forward and backward, changes of direction, first and last direction."""
    cusps = [c for c in sorted(p.get_cusp_point_ratios()) if 1e-9 < c < 1 - 1e-9]
    at = [0.0] + cusps + [1.0]
    f = b = 0.0
    n = first = last = 0
    for x, y in zip(at, at[1:]):
        s, ln = sgn(p.get_direction((x + y) / 2)), (y - x) * p.get_length()
        if ln < 1e-9:
            continue
        if s > 0:
            f += ln
        else:
            b += ln
        if last and s != last:
            n += 1
        first = first or s
        last = s
    return [fx(f), fx(b), n, first, last]


def rs_case(g, i):
    line('case', id=i)
    for _ in range(5):
        R = g.real(0.4, 4)
        rv, fw, sw = g.rng(1, 24), g.rng(1, 24), (0 if g.chance(1, 3) else g.rng(0, 16))
        conn = pp.PathConnectionReedsShepp(R, sw / 8, rv / 8, fw / 8)
        worst = None
        for _ in range(30):
            a = P(g.real(-8, 8), g.real(-8, 8), g.real(-pi, pi))
            w = g.rng(0, 47)
            hi = pi if g.chance(1, 2) else 1.2
            par = lambda h: g.rng(500, int(h * 1e4) - 500) / 1e4
            b = w // 4
            u = par(6 if g.chance(1, 2) else 1.5) if b < 2 or b >= 7 else par(pi / 2) if b in (5, 6) else par(hi)
            ms = word(w, par(hi), u, par(hi))
            x, y, th = a.x(), a.y(), a.theta
            f = bk = 0.0
            n = 0
            for k, (st, d, ln) in enumerate(ms):
                s = ln * R * d
                if st == 0:
                    x, y = x + s * math.cos(th), y + s * math.sin(th)
                else:
                    t2 = th + st * d * ln
                    x, y, th = x + st * R * (math.sin(t2) - math.sin(th)), y - st * R * (math.cos(t2) - math.cos(th)), t2
                if d > 0:
                    f += ln * R
                else:
                    bk += ln * R
                n += k > 0 and d != ms[k - 1][1]
            goal = P(x, y, th)
            p = conn.connect(a, goal)
            dr = drive(p)
            gap = (dr[0] / 1e4 - f) * fw / 8 + (dr[1] / 1e4 - bk) * rv / 8 + (dr[2] - n) * sw / 8
            if worst is None or gap > worst[0]:
                worst = (gap, a, goal, p, dr, [fx(f), fx(bk), n])
        _, a, goal, p, dr, cand = worst
        # largest heading change per length, as a multiple of 1/R
        most, L, q = 0.0, p.get_length(), p.interpolate(0.0)
        dev = 0.0
        for k in range(1, 101):
            r = p.interpolate(k / 100)
            dth = abs((r - q).theta)
            ch = math.hypot(r.x() - q.x(), r.y() - q.y())
            if L > 1e-6:
                most = max(most, dth / (L / 100))
                dev = max(dev, ch - L / 100)
            q = r
        line('rs', R=fx(R), rv=rv, fw=fw, sw=sw, s=pose(a), g=pose(goal), init=pose(p.get_initial_state()), fin=pose(p.get_final_state()), at0=pose(p.interpolate(0.0)),
             at1=pose(p.interpolate(1.0)), len=fx(p.get_length()), drive=dr, cand=cand, curv=fx(most * R), dev=fx(dev), radius=fx(p.min_turning_radius))


# --------------------------------------------------------------------- GVD
def d2(d, res):
    q = (d / res) ** 2
    if q > 1e8:
        return -1
    n = round(q)
    return n if abs(q - n) < 1e-3 * max(1.0, q * 1e-2) else -9


def gvd_case(g, i):
    rows, cols = g.rng(1, 9), g.rng(1, 9)
    res = g.choice([10, 5, 20, 40])
    r = res / 10
    m = pp.ObstacleListOccupancyMap(r)
    if g.chance(1, 2):
        m.set_position(pp.Point2d(float(g.rng(-4, 4)), float(g.rng(-4, 4))))
    m.initialize_size(rows * r, cols * r)
    line('case', id=i, rows=m.rows(), cols=m.columns(), res=res)
    gvd, on = pp.GVD(m), []
    for k in range(g.rng(1, 4)):
        for _ in range(g.rng(1 if k == 0 else 0, 3)):
            if on and g.chance(2, 5):
                m.remove_obstacle(on.pop(g.rng(0, len(on) - 1)))
            else:
                o = random_obstacle(g, rows * r, cols * r) if g.chance(1, 3) else cell_obstacle(m, r, g.rng(0, rows - 1), g.rng(0, cols - 1))
                m.add_obstacle(o)
                on.append(o)
        gvd.update()
        rc = [(x, y) for x in range(rows) for y in range(cols)]
        ask = lambda f, x, y: f(x, y) if g.chance(1, 2) else f(pp.GridCellPosition(x, y))
        line('gvd', vals=[m.get_occupancy_value(x, y) for x, y in rc], od=[d2(ask(gvd.get_distance_to_nearest_obstacle, x, y), r) for x, y in rc],
             vd=[d2(ask(gvd.get_distance_to_nearest_voronoi_edge, x, y), r) for x, y in rc], cost=[fx(ask(gvd.get_path_cost, x, y)) for x, y in rc])
        for _ in range(3):
            x, y = g.rng(-1, rows), g.rng(-1, cols)
            p = m.grid_cell_to_world_position(pp.GridCellPosition(x, y)) + pp.Point2d(r * g.real(0.1, 0.9), r * g.real(0.1, 0.9))
            line('at', r=x, c=y, ok=[int(gvd.get_distance_to_nearest_obstacle(p, 0.0)), int(gvd.get_distance_to_nearest_voronoi_edge(p, 0.0)), int(gvd.get_path_cost(p, 0.0))])
        f = os.path.join(tempfile.gettempdir(), 'gvd-%d.ppm' % os.getpid())
        try:
            gvd.visualize(f)
            d = open(f, 'rb').read()
        finally:
            if os.path.exists(f):
                os.unlink(f)
        head = b'P6\n#\n%d %d\n255\n' % (rows, cols)
        body = d[len(head):]
        line('image', head=d.startswith(head), size=len(body), black=[int(body[3 * q:3 * q + 3] == b'\0\0\0') for q in range(len(body) // 3)])


# --------------------------------------------------------------- Hybrid A*
def hyb_case(g, i):
    half, res = g.real(2.5, 4.5), g.choice([0.25, 0.5])
    space = pp.StateSpaceSE2(P(-half, -half, -pi), P(half, half, pi))
    m = pp.ObstacleListOccupancyMap(res)
    v = pp.StateValidatorOccupancyMap(space, m)
    v.min_safe_radius = g.choice([0.0, 0.3])
    v.min_path_interpolation_distance = g.choice([0.1, 0.2])
    rv, fw, sw = g.rng(2, 8), g.rng(2, 8), (0 if g.chance(1, 3) else g.rng(1, 8))
    R, sr, n = g.real(0.8, 2), g.choice([0.75, 1.0]), g.rng(6, 10)
    par = pp.HybridAStarSearchParameters(R, sw / 4, rv / 4, fw / 4, 0.0, g.choice([3, 5]), sr, 2 * pi / n)
    algo = pp.HybridAStar(par)
    interp = g.choice([0.125, 0.25])
    algo.path_interpolation = interp
    init = algo.initialize(v)
    sm = algo.smoother_parameters
    plain = g.chance(1, 2)
    sm.max_iterations = 0 if plain else g.rng(5, 40)
    algo.smoother_parameters = sm
    line('case', id=i, rv=rv, fw=fw, sw=sw, R=fx(R), interp=fx(interp), plain=plain, init=bool(init), iters=algo.smoother_parameters.max_iterations == sm.max_iterations,
         curv=fx(algo.smoother_parameters.max_curvature * R))
    keep, val = (space, m) if g.chance(1, 2) else (None, None), v
    on = []
    for _ in range(g.rng(1, 2)):
        for _ in range(g.rng(0, 3)):
            if on and g.chance(1, 3):
                m.remove_obstacle(on.pop(g.rng(0, len(on) - 1)))
            else:
                o = obstacle(pp.RectangleShape(g.real(0.3, half), 0.3), g.real(-half, half), g.real(-half, half), g.real(-1.5, 1.5))
                m.add_obstacle(o)
                on.append(o)
        m.update()

        def draw():
            for _ in range(20):
                p = P(g.real(-half, half) * 0.95, g.real(-half, half) * 0.95, g.real(-3.14, 3.14))
                if val.is_state_valid(p):
                    break
            return p
        a, b = draw(), draw()
        algo.set_init_state(a)
        algo.set_goal_state(b)
        st = algo.search_path()
        stats = algo.get_stats()
        ok = st == pp.Status.SUCCESS
        segs = algo.get_graph_search_path()
        c = algo.get_graph_search_optimal_cost()
        path, smooth = algo.get_path(), algo.get_smoothed_path()
        ends = lambda p: pose(p.get_initial_state()) + pose(p.get_final_state())
        tree = algo.get_graph_search_explored_path_set()
        starts = {tuple(pose(p.get_final_state())) for p in tree} | {tuple(pose(a))}
        line('search', s=pose(a), t=pose(b), ok=ok, graph=stats.graph_search_status == pp.Status.SUCCESS, smooth=int(stats.smoothing_status), known=stats.smoothing_status in
             (pp.SmoothingStatus.MAX_ITERATION, pp.SmoothingStatus.STEP_TOLERANCE, pp.SmoothingStatus.PATH_SIZE, pp.SmoothingStatus.FAILURE, pp.SmoothingStatus.COLLISION),
             cost=fx(c) if math.isfinite(c) else -1,
             segs=[dict(ends=ends(p), drive=drive(p), valid=val.is_path_valid(p, 0.0)) for p in segs], lost=sum(tuple(pose(p.get_initial_state())) not in starts for p in tree),
             intree=all(any(q is p for q in tree) for p in segs), ntree=len(tree), path=[pose(p) for p in path], valid=[int(val.is_state_valid(p)) for p in path],
             same=len(path) == len(smooth) and all(pose(x) == pose(y) for x, y in zip(path, smooth)), nsmooth=len(smooth))


# --------------------------------------------------------------------- API
def api_case(g, i):
    line('case', id=i)
    pp.initialize()
    E = lambda *v: [int(x) for x in v]
    line('enum', name='Status', got=E(pp.Status.SUCCESS, pp.Status.FAILURE))
    line('enum', name='Steer', got=E(pp.Steer.LEFT, pp.Steer.STRAIGHT, pp.Steer.RIGHT))
    line('enum', name='Direction', got=E(pp.Direction.FORWARD, pp.Direction.BACKWARD, pp.Direction.NO_MOTION))
    s = pp.SmoothingStatus
    line('enum', name='SmoothingStatus', got=E(s.MAX_ITERATION, s.STEP_TOLERANCE, s.PATH_SIZE, s.FAILURE, s.COLLISION))
    # parameters: each is read back as it was given
    w = [g.rng(1, 4000) for _ in range(5)] + [g.rng(1, 20)] + [g.rng(1, 4000) for _ in range(2)]
    a = [x / 256 for x in w]
    a[5] = w[5]
    p = pp.HybridAStarSearchParameters(*a)
    for q in (p, pp.HybridAStar(p).get_search_parameters()):
        line('params', want=w, got=[fx(q.min_turning_radius, 256), fx(q.direction_switching_cost, 256), fx(q.reverse_cost_multiplier, 256), fx(q.forward_cost_multiplier, 256),
             fx(q.voronoi_cost_multiplier, 256), q.num_generated_motion, fx(q.spatial_resolution, 256), fx(q.angular_resolution, 256)])
    q, d = pp.HybridAStarSearchParameters(), pp.HybridAStar().get_search_parameters()
    f = lambda q: [fx(q.wheelbase), fx(q.min_turning_radius), fx(q.direction_switching_cost), fx(q.reverse_cost_multiplier), fx(q.forward_cost_multiplier), fx(q.voronoi_cost_multiplier),
                   q.num_generated_motion, fx(q.spatial_resolution), fx(q.angular_resolution)]
    line('defaults', a=f(q), b=f(d))
    names = ['step_tolerance', 'learning_rate', 'path_weight', 'smooth_weight', 'voronoi_weight', 'collision_weight', 'curvature_weight', 'collision_ratio']
    mc = g.rng(1, 4000)
    sm = pp.HybridAStarSmootherParameters(mc / 256)
    w = [g.rng(1, 4000) for _ in names] + [g.rng(1, 4000), mc]
    for n, x in zip(names, w):
        setattr(sm, n, x / 256)
    sm.max_iterations = w[8]
    line('params', want=w, got=[fx(getattr(sm, n), 256) for n in names] + [sm.max_iterations, fx(sm.max_curvature, 256)])
    h = pp.HybridAStar()
    h.smoother_parameters = sm
    t = h.smoother_parameters
    line('params', want=w, got=[fx(getattr(t, n), 256) for n in names] + [t.max_iterations, fx(t.max_curvature, 256)])
    x = g.rng(1, 4000)
    h.path_interpolation = x / 256
    m = pp.ObstacleListOccupancyMap(1.0)
    v = pp.StateValidatorOccupancyMap(pp.StateSpaceSE2(P(-2.0, -2.0, -pi), P(2.0, 2.0, pi)), m)
    y, z = g.rng(1, 4000), g.rng(1, 4000)
    v.min_path_interpolation_distance, v.min_safe_radius = y / 256, z / 256
    line('params', want=[x, y, z], got=[fx(h.path_interpolation, 256), fx(v.min_path_interpolation_distance, 256), fx(v.min_safe_radius, 256)])
    line('same', what='map of the validator', ok=v.get_occupancy_map() is m)

    # classes implemented in Python: calls arrive once, with their arguments, and return what was returned
    calls = []
    num = g.rng(-500, 500)
    val = g.chance(1, 2)

    def called(what, args, want, got):
        line('call', what=what, seen=[list(c) for c in calls], args=args, want=want, got=got)
        calls.clear()

    class Plan2(pp.PathPlannerN2Base):
        def SearchPath(self):
            calls.append([1])
            return pp.Status.SUCCESS if val else pp.Status.FAILURE

        def GetPath(self):
            calls.append([2])
            return [pp.GridCellPosition(num, 3), pp.GridCellPosition(4, num)]
    o = Plan2()
    r = o.search_path()
    called('N2.SearchPath', [[1]], [0 if val else -1], [int(r)])
    r = o.get_path()
    called('N2.GetPath', [[2]], [num, 3, 4, num], [k for c in r for k in (c.row, c.col)])

    class PlanS(pp.PathPlannerSE2Base):
        def SearchPath(self):
            calls.append([1])
            return pp.Status.SUCCESS if val else pp.Status.FAILURE

        def GetPath(self):
            calls.append([2])
            return [P(num / 2, 1.0, 0.5)]
    o = PlanS()
    r = o.search_path()
    called('SE2.SearchPath', [[1]], [0 if val else -1], [int(r)])
    r = o.get_path()
    called('SE2.GetPath', [[2]], [num, 2, 1], [fx(k, 2) for c in r for k in (c.x(), c.y(), c.theta)])

    class Path_(pp.PathSE2Base):
        def Interpolate(self, q):
            calls.append([1, fx(q, 64)])
            return P(num / 2, q, 0.5)

        def Truncate(self, q):
            calls.append([2, fx(q, 64)])
    o = Path_()
    k = g.rng(0, 64)
    r = o.interpolate(k / 64)
    called('Path.Interpolate', [[1, k]], [num * 32, k, 32], pose(r, 64))
    ks = [g.rng(0, 64) for _ in range(3)]
    r = o.interpolate([q / 64 for q in ks])
    called('Path.Interpolate', [[1, q] for q in ks], [fx(q) for q in ks], [fx(x.y() * 64) for x in r])
    o.truncate(k / 64)
    called('Path.Truncate', [[2, k]], [], [])

    class Conn(pp.PathConnectionSE2Base):
        def Connect(self, a, b):
            calls.append(pose(a, 2) + pose(b, 2))
            return pp.PathSE2(b, a)
    a, b = P(g.rng(-9, 9) / 2, 1.0, 0.0), P(2.0, g.rng(-9, 9) / 2, 0.5)
    r = Conn().connect(a, b)
    called('Connection.Connect', [pose(a, 2) + pose(b, 2)], pose(b, 2) + pose(a, 2), pose(r.get_initial_state(), 2) + pose(r.get_final_state(), 2))

    class Val(pp.StateValidatorSE2Base):
        def IsStateValid(self, s):
            calls.append([1] + pose(s, 2))
            return val

        def IsPathValid(self, p, last):
            calls.append([2] + pose(p.get_final_state(), 2))
            return val
    o = Val(pp.StateSpaceSE2(P(-1.0, -2.0, -0.5), P(1.0, 2.0, 0.5)))
    r = o.is_state_valid(a)
    called('Validator.IsStateValid', [[1] + pose(a, 2)], [int(val)], [int(r)])
    r = o.is_path_valid(pp.PathSE2(a, b), 0.0)
    called('Validator.IsPathValid', [[2] + pose(b, 2)], [int(val)], [int(r)])
    line('params', want=[-2, -4, -1, 2, 4, 1], got=pose(o.state_space.bounds[0], 2) + pose(o.state_space.bounds[1], 2))

    class Map(pp.OccupancyMap):
        def __init__(self):
            pp.OccupancyMap.__init__(self, 0.5)

        def IsOccupied(self, c):
            calls.append([1, c.row, c.col])
            return val

        def Update(self):
            calls.append([2])
    o = Map()
    o.initialize_size(2.0, 3.0)
    calls.clear()
    c = pp.GridCellPosition(g.rng(0, 3), g.rng(0, 5))
    r = o.is_occupied(c)
    called('Map.IsOccupied', [[1, c.row, c.col]], [int(val)], [int(r)])
    o.update()
    called('Map.Update', [[2]], [], [])
    line('params', want=[4, 6], got=[o.rows(), o.columns()])
    c = pp.GridCellPosition(g.rng(-99, 99), g.rng(-99, 99))
    line('params', want=[c.row, c.col], got=[int(x) for x in re.findall(r'-?[0-9]+', repr(c))])


# --------------------------------------------------------------- lifetimes
def life_case(g, i):
    """Python objects given to planners, propagators and validators, references dropped in any order."""
    line('case', id=i)
    live, seen = {}, {}

    class Heur(pp.AStarHeuristicN2):
        def SetGoal(self, goal):
            self.goal = (goal.row, goal.col)

        def GetHeuristicValue(self, s):
            return 0.0

    class Map(pp.OccupancyMap):
        def __init__(self):
            pp.OccupancyMap.__init__(self, 1.0)

        def IsOccupied(self, c):
            return False
    kinds, no = {}, 0

    def new(kind, obj, uses=()):
        nonlocal no
        no += 1
        live[no], seen[no], kinds[no] = obj, weakref.ref(obj), kind
        line('new', id=no, kind=kind, uses=list(uses))
        return no
    pick = lambda k: [n for n in live if kinds[n] == k]
    for _ in range(g.rng(6, 24)):
        w = g.rng(0, 10)
        if w == 0:
            new('heur', Heur())
        elif w == 1:
            m = Map()
            m.initialize_size(3.0, 3.0)
            new('map', m)
        elif w == 2 and pick('map'):
            n = g.choice(pick('map'))
            new('prop', pp.AStarStatePropagatorFcnN2(live[n], lambda a, b: 1.0), [n])
        elif w == 3 and pick('map'):
            n = g.choice(pick('map'))
            new('val', pp.StateValidatorOccupancyMap(pp.StateSpaceSE2(P(-1.0, -1.0, -pi), P(1.0, 1.0, pi)), live[n]), [n])
        elif w == 4 and pick('prop') and pick('heur'):
            n, h = g.choice(pick('prop')), g.choice(pick('heur'))
            a = pp.AStarN2()
            a.initialize(live[n], live[h])
            new('astar', a, [n, h])
        elif w == 5 and pick('prop') and len(pick('heur')) > 0:
            n, n2, h, h2 = g.choice(pick('prop')), g.choice(pick('prop')), g.choice(pick('heur')), g.choice(pick('heur'))
            a = pp.BidirectionalAStarN2()
            a.initialize(live[n], live[n2], live[h], live[h2])
            new('astar', a, [n, n2, h, h2])
        elif w == 6 and pick('map'):
            n = g.choice(pick('map'))
            new('gvd', pp.GVD(live[n]), [n])
        elif w == 7 and pick('val') and not pick('hyb'):
            n = g.choice(pick('val'))
            a = pp.HybridAStar(pp.HybridAStarSearchParameters(1.0, 0.0, 1.0, 1.0, 1.0, 3, 0.5, 0.5))
            if a.initialize(live[n]):
                new('hyb', a, [n])
        elif w >= 7 and live:
            n = g.choice(sorted(live))
            del live[n]
            line('drop', id=n)
        a = m = None
        gc.collect()
        line('alive', ids=sorted(n for n in seen if seen[n]() is not None))
        for n in pick('astar'):
            # 3x3 (the size of every map, unless a validator has resized it to 2x2): both cells are on the map
            live[n].set_init_state(pp.GridCellPosition(0, 0))
            live[n].set_goal_state(pp.GridCellPosition(1, 1))
            st = live[n].search_path()
            line('use', id=n, ok=st == pp.Status.SUCCESS)
        for n in pick('hyb'):
            live[n].set_init_state(P(-0.5, 0.0, 0.0))
            live[n].set_goal_state(P(0.5, 0.0, 0.0))
            st = live[n].search_path()
            line('use', id=n, ok=st == pp.Status.SUCCESS)


CASES = dict(plan=plan_case, occ=occ_case, raster=raster_case, frame=frame_case, valid=valid_case, vpath=vpath_case, pose=pose_case, path=path_case, space=space_case,
             rs=rs_case, gvd=gvd_case, hyb=hyb_case, api=api_case, life=life_case)
if A.mode not in CASES:
    sys.exit(3)
try:
    import pyplanning as pp
    G = Rng(A.seed * 1000 + A.shard)
    for n in range(A.cases):
        OUT.flush()
        signal.alarm(90)
        CASES[A.mode](G, n)
except Exception as e:
    # an error raised by the module (or by a missing part of it) is an event no specification allows
    sys.stderr.write('%r\n' % e)
    import traceback
    traceback.print_exc()
    line('throw', what=('%s: %s' % (type(e).__name__, e))[:300])
OUT.flush()
os._exit(0)
