"""C27: arc, circle and path utilities produce the curves they name."""
import math

from x7.geom.geom import Point, PointRelative, PointCalc, Vector
from x7.geom.utils import (arc, arc2p, check_point_list, circle, cross, plus, min_rotation, path_rotate, path_rotate_ccw,
                           path_translate, path_to_xy, path_from_xy)
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: generated point lists measured with plain trigonometry, inverses and purity of path functions'
RULE = ('random radii, centres, start and end angles (negative, beyond full turns, equal, integer and fractional), directions, step '
        'counts, point pairs and sides; random paths of every point class rotated, translated and converted. '
        'Distinct by arguments.')
ASSUMPTIONS = ['start and end angles that differ by a rounding error of a full turn are not judged',
               'points of an arc are judged in their order along the arc']
REQUIRED = {'radius': 20000, 'ends': 4000, 'monotone': 20000, 'steps': 2500, 'turn': 2500, 'arc2p': 3000, 'arc2p-side': 1000,
            'refused': 800, 'circle': 10000, 'cross': 800, 'min_rotation': 6000, 'path': 6000, 'inverse': 2000, 'unchanged': 2500}


def ang(rng):
    return rng.choice((0, 90, 180, 270, 360, -90, 45, 10, 359, 1, rng.randint(-720, 720), rng.uniform(-400, 400), rng.uniform(0, 360),
                       720, -360, 0.0, rng.randint(-10, 10)*360 + rng.choice((0, 90, 1, -1)), rng.uniform(-9999, 9999)))


def radius(rng):
    return rng.choice((1, 5, 100, rng.uniform(0.01, 50), 0.001, 1000, rng.randint(1, 60)))


def center(rng):
    k = rng.random()
    if k < 0.7:
        return gen.pt(rng)
    if k < 0.85:
        return PointRelative(rng.uniform(-9, 9), 2, gen.pt(rng))
    return PointCalc(PointRelative(rng.uniform(-9, 9), 2, gen.pt(rng)), 0.5)


def near_angle(a, b):
    d = (a-b) % 360
    return min(d, 360-d)


def is_list(mon, pts, name):
    mon.check(isinstance(pts, list) and all(isinstance(p, tuple) and len(p) == 2 for p in pts), name, 'type', pts[:3])


def walk(mon, pts, c, r, sense, name, scale):
    """Steps around c turn in one sense and are even; returns the total turn in degrees"""
    total, first = 0.0, None
    for p, q in zip(pts, pts[1:]):
        a, b = (p[0]-c[0], p[1]-c[1]), (q[0]-c[0], q[1]-c[1])
        d = math.degrees(math.atan2(a[0]*b[1] - a[1]*b[0], a[0]*b[0] + a[1]*b[1]))
        slack = 1e-9*scale/r*57.3 + 1e-6
        if sense and abs(d) < 180 - 1e-3:
            mon.check(d*sense >= -slack, name, 'direction', d)
        if first is None:
            first = d
        mon.check(near_angle(d, first) <= 3*slack, name, 'even', d, first)
        total += d
    return total


def arcs(rng, mon):
    r, sa, ea = radius(rng), ang(rng), ang(rng)
    if rng.random() < 0.06:
        ea = sa + 10**rng.uniform(-5.5, 0)*rng.choice((1, -1)) + 360*rng.choice((0, 0, 1))
    direction = rng.choice(('ccw', 'ccw', 'cw', 'none'))
    steps = rng.choice((-1, -1, gen.some(rng, 2, 40, 6000), 1, 90))
    kw = {}
    c = (0.0, 0.0)
    args = [r, sa, ea]
    if rng.random() < 0.7:
        pt = center(rng)
        c = tuple(pt.xy())
        args.append(pt)
    if steps != -1:
        kw['steps'] = steps
    if direction != 'ccw' or rng.random() < 0.5:
        kw['direction'] = direction
    span = {'ccw': (ea-sa) % 360, 'cw': -((sa-ea) % 360), 'none': ea-sa}[direction]
    if direction != 'none' and min(abs(span), 360-abs(span)) < 1e-6 and not (isinstance(sa, int) and isinstance(ea, int)):
        if sa != ea:
            return
    before = snap.snap(args)
    pts = arc(*args, **kw)
    mon.check(snap.snap(args) == before, 'unchanged')
    is_list(mon, pts, 'steps')
    scale = r + abs(c[0]) + abs(c[1])
    for p in pts:
        mon.near(math.hypot(p[0]-c[0], p[1]-c[1]), r, 'radius', args, kw, scale=scale)
    for p, a in ((pts[0], sa), (pts[-1], ea)):
        want = c[0] + r*math.cos(math.radians(a)), c[1] + r*math.sin(math.radians(a))
        mon.near(p, want, 'ends', args, kw, scale=scale*(1 + abs(a)/100))
    n = len(pts) - 1
    if steps == -1:
        # one per degree
        if abs(abs(span) - round(abs(span))) > 1e-6 or (isinstance(sa, int) and isinstance(ea, int)):
            mon.check(n == math.floor(abs(span) + 1), 'steps', n, args, kw)
        else:
            mon.check(abs(n - (abs(span)+1)) <= 1.01, 'steps', n, args, kw)
        mon.check(not n or abs(span)/n <= 1 + 1e-9, 'steps', 'coarse', n, span)
    else:
        mon.check(n == steps, 'steps', n, steps)
    sense = (span > 0) - (span < 0)
    if n and abs(span)/n < 175:
        total = walk(mon, pts, c, r, sense, 'monotone', scale)
        mon.near(total, span, 'turn', args, kw, rel=1e-6, scale=360*(1 + 1e-3*scale/r))
        if direction != 'none':
            mon.check(abs(total) <= 360 + 1e-3, 'turn', 'full', total)
    mon.sig('arc', r, sa, ea, c, direction, steps)
    mon.sample(r, sa, ea, c, direction, steps, n)


def two_points(rng, mon):
    s, e = center(rng), center(rng)
    k = rng.random()
    if k < 0.1:
        e = Point(s.x + rng.uniform(-1, 1)*1e-3, s.y + 1e-3)
    d = math.hypot(e.x-s.x, e.y-s.y)
    if d == 0:
        mon.raises(ValueError, lambda: arc2p(5, s, e), 'refused', 'same point')
        return
    if rng.random() < 0.15:
        r = d/2 * rng.uniform(0.1, 0.999)
        mon.raises(ValueError, lambda: arc2p(r, s, e), 'refused', r, d)
        mon.raises(ValueError, lambda: arc2p(r, s, e, side=-1), 'refused', r, d)
        mon.raises(ValueError, lambda: arc2p(r, s, s.copy()), 'refused', 'same')
        return
    r = d/2 * rng.choice((1.001, 2, rng.uniform(1.0001, 5), 1+1e-6))
    side = rng.choice((None, 1, -1, 2, -3.5, 0.5, -0.01, rng.uniform(0.01, 9), -rng.uniform(0.01, 9), 1e3))
    steps = rng.choice((-1, -1, gen.some(rng, 2, 40, 6000)))
    kw = {}
    if side is not None:
        kw['side'] = side
    if steps != -1:
        kw['steps'] = steps
    before = snap.snap((s, e))
    pts = arc2p(r, s, e, **kw)
    mon.check(snap.snap((s, e)) == before, 'unchanged')
    is_list(mon, pts, 'arc2p')
    side = 1 if side is None else side
    scale = r + abs(s.x) + abs(s.y) + d
    a, b = tuple(s.xy()), tuple(e.xy())
    c = pts[1]
    mon.near(pts[0], b, 'arc2p', 'first', scale=scale)
    mon.near(pts[2], a, 'arc2p', 'third', scale=scale)
    for p in (a, b):
        mon.near(math.hypot(p[0]-c[0], p[1]-c[1]), r, 'arc2p', 'centre', r, s, e, side, rel=1e-7, scale=scale)
    # the side: positive is to the right of s -> e
    cross_ = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
    if r > d/2*1.00001:
        mon.check(cross_*side < 0, 'arc2p-side', r, s, e, side, cross_)
    curve = pts[3:]
    mon.near(curve[0], a, 'arc2p', 'starts', r, s, e, side, rel=1e-6, scale=scale)
    mon.near(curve[-1], b, 'arc2p', 'ends', r, s, e, side, rel=1e-6, scale=scale)
    for p in curve:
        mon.near(math.hypot(p[0]-c[0], p[1]-c[1]), r, 'radius', r, s, e, side, rel=1e-7, scale=scale)
    n = len(curve) - 1
    if steps != -1:
        mon.check(n == steps, 'steps', n, steps)
    v, w = (a[0]-c[0], a[1]-c[1]), (b[0]-c[0], b[1]-c[1])
    span = math.degrees(math.atan2(v[0]*w[1] - v[1]*w[0], v[0]*w[0] + v[1]*w[1])) % 360
    if n and span/n < 175:
        total = walk(mon, curve, c, r, 1, 'monotone', scale)
        mon.near(total, span, 'turn', r, s, e, side, rel=1e-4, scale=360*(1 + scale/r*1e-3))
        if steps == -1:
            mon.check(abs(n - (span+1)) <= 1.01, 'steps', n, span)
    # the other side mirrors the centre
    other = arc2p(r, s, e, side=-side)
    mon.near([(p+q)/2 for p, q in zip(other[1], c)], ((a[0]+b[0])/2, (a[1]+b[1])/2), 'arc2p-side', 'mirror', rel=1e-7, scale=scale)
    mon.sig('arc2p', r, a, b, side, steps)


def circles(rng, mon):
    r = radius(rng)
    c = center(rng)
    x, y = c.xy()
    scale = r + abs(x) + abs(y)
    default = rng.random() < 0.2
    if default:
        x, y = 0, 0
        scale = r
    args = (r,) if default else (r, c)
    before = snap.snap(c)
    pts = circle(*args)
    is_list(mon, pts, 'circle')
    for p in pts:
        mon.near(math.hypot(p[0]-x, p[1]-y), r, 'circle', r, x, y, scale=scale)
    mon.check(len(pts) == 361, 'circle', 'steps', len(pts))
    mon.near(pts[0] + pts[-1], (x+r, y)*2, 'circle', 'closes', r, x, y, scale=scale)
    mon.near(walk(mon, pts, (x, y), r, 1, 'monotone', scale), 360, 'turn', r, rel=1e-6, scale=360*(1 + 1e-3*scale/r))
    h = r*math.sqrt(0.5)
    for func, dx, dy in ((cross, (h, h), (-h, h)), (plus, (r, 0), (0, r))):
        pts = func(*args)
        is_list(mon, pts, 'cross')
        want = [(x-dx[0], y-dx[1]), (x+dx[0], y+dx[1]), (x, y), (x-dy[0], y-dy[1]), (x+dy[0], y+dy[1])]
        mon.check(len(pts) == 5, 'cross', len(pts))
        for p, q in zip(pts, want):
            mon.near(p, q, 'cross', func.__name__, r, x, y, scale=scale)
    mon.check(snap.snap(c) == before, 'unchanged')
    mon.sig('circle', r, x, y)


def rotations(rng, mon):
    for _ in range(4):
        a, b = ang(rng), ang(rng)
        if rng.random() < 0.3:
            b = a + rng.choice((0, 180, -180, 360, 179.5, 540, 1, -1, 1e-9))
        got = min_rotation(a, b)
        # the residue of a tiny negative difference rounds to a full turn
        mon.check(-180 <= got < 180 or (got == 180 and isinstance(a-b, float)), 'min_rotation', 'range', a, b, got)
        mon.check(near_angle(b + got, a) <= 1e-9*(1 + abs(a) + abs(b)), 'min_rotation', 'reaches', a, b, got)
        want = ((a-b) + 180) % 360 - 180
        mon.check(abs(abs(got) - abs(want)) <= 1e-9*(1 + abs(a) + abs(b)), 'min_rotation', 'least', a, b, got)
        if isinstance(a, int) and isinstance(b, int):
            mon.check(got == want, 'min_rotation', a, b, got)
    mon.sig('rot', a, b)


def any_point(rng):
    k = rng.random()
    if k < 0.6:
        return gen.pt(rng, gen.name(rng) if rng.random() < 0.3 else None)
    return center(rng)


def paths(rng, mon):
    path = [any_point(rng) for _ in range(gen.some(rng, 0, 6, 40))]
    xy = [tuple(p.xy()) for p in path]
    before = snap.snap(path)
    ids = [id(p) for p in path]
    d = ang(rng)
    as_pt = rng.random() < 0.5
    th = math.radians(d)

    def rot(p, t):
        return p[0]*math.cos(t) - p[1]*math.sin(t), p[0]*math.sin(t) + p[1]*math.cos(t)

    def same(got, want, what):
        mon.check(isinstance(got, list) and len(got) == len(path), 'path', what, 'length', len(got))
        if as_pt:
            mon.check(all(isinstance(p, Point) for p in got), 'path', what, 'type', got)
            mon.check(not {id(p) for p in got} & set(ids), 'path', what, 'shares points')
            got = [p.xy() for p in got]
        else:
            mon.check(all(isinstance(p, tuple) and len(p) == 2 for p in got), 'path', what, 'type', got)
        for p, q in zip(got, want):
            mon.near([float(v) for v in p], q, 'path', what, d, scale=200*(1 + abs(d)/100))

    kw = dict(as_pt=as_pt) if as_pt or rng.random() < 0.5 else {}
    cw, ccw = path_rotate(path, d, **kw), path_rotate_ccw(path, d, **kw)
    same(cw, [rot(p, -th) for p in xy], 'rotate')
    same(ccw, [rot(p, th) for p in xy], 'rotate_ccw')
    v = rng.choice((Vector(*gen.xy(rng)), Vector(0, rng.choice((0, 3))), Point(0, 0), gen.pt(rng), PointRelative(1, 2, gen.pt(rng))))
    moved = path_translate(path, v, **kw)
    same(moved, [(p[0]+v.x, p[1]+v.y) for p in xy], 'translate')
    mon.check(snap.snap(path) == before and [id(p) for p in path] == ids, 'unchanged', path)
    # conversions
    out = path_to_xy(path)
    is_list(mon, out, 'path')
    mon.check(out == xy, 'path', 'to_xy', out, xy)
    pts = path_from_xy(out)
    mon.check(all(type(p) is Point for p in pts) and [tuple(p.xy()) for p in pts] == xy, 'path', 'from_xy', pts)
    mon.check(path_to_xy(path_from_xy(xy)) == xy, 'inverse', 'conversion')
    lists = path_from_xy([list(p) for p in xy])
    mon.check([tuple(p.xy()) for p in lists] == xy, 'path', 'from lists')
    # inverses
    for f, g in ((path_rotate, path_rotate_ccw), (path_rotate_ccw, path_rotate)):
        back = g(f(path, d, as_pt=True), d)
        for p, q in zip(back, xy):
            mon.near([float(k) for k in p], q, 'inverse', d, scale=300)
    back = path_translate(path_translate(path, v, as_pt=True), Vector(-v.x, -v.y))
    for p, q in zip(back, xy):
        mon.near(p, q, 'inverse', 'translate', scale=300)
    # validation
    mon.check(check_point_list(path) is None, 'path', 'check')
    bad = list(path)
    bad.insert(rng.randint(0, len(bad)), rng.choice(((1, 2), None, Vector(1, 2), 3, 'p')))
    mon.raises(ValueError, lambda: check_point_list(bad), 'refused', bad)
    mon.check(snap.snap(path) == before, 'unchanged', 'all')
    mon.sig('path', xy, d)


KINDS = [(arcs, 24000, 96000), (two_points, 16000, 64000), (circles, 2400, 9600), (rotations, 16000, 64000), (paths, 12000, 48000)]
