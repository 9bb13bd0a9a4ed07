"""C04: line queries return the true geometric answer."""
import math
from fractions import Fraction as F

from x7.geom.geom import Point, PointRelative, Vector, VectorRelative, Line, ParallelLineError, polygon_area, BBox
from monlib import gen, ref

TECHNIQUE = 'runtime monitoring: answers checked online against exact rational arithmetic'
RULE = ('seeded segment pairs: random, sharing end points, T-junctions, axis-aligned touching, crossing, parallel, collinear '
        'and far apart, on integer, dyadic, float and huge coordinates, answered exactly with rationals; plus closest points '
        'and polygons. Non-trivial: segments of non-zero length; distinct by rounded end points.')
ASSUMPTIONS = ['floating coordinates closer than 1e-9 (in segment parameter) to touching without touching exactly are not judged',
               'collinear overlapping segments (no single common point) are only required not to return a wrong point']
REQUIRED = {'segment-hit': 500, 'segment-miss': 500, 'touch': 500, 'parallel': 300, 'closest': 600, 'area': 500}


def exact(p1, p2, q1, q2):
    """('parallel',) or ('cross', t, s): parameters where the infinite lines meet (t on p, s on q)"""
    ax, ay = F(p1[0]), F(p1[1])
    ux, uy = F(p2[0]) - ax, F(p2[1]) - ay
    bx, by = F(q1[0]), F(q1[1])
    vx, vy = F(q2[0]) - bx, F(q2[1]) - by
    det = ux*vy - uy*vx
    if det == 0:
        return ('parallel',)
    wx, wy = bx - ax, by - ay
    return 'cross', (wx*vy - wy*vx)/det, (wx*uy - wy*ux)/det


def ints(rng, n=8):
    return rng.randint(-n, n), rng.randint(-n, n)


def two_segments(rng):
    """(p1, p2, q1, q2, exact?): exact means all coordinates and differences are exact in floats"""
    k = rng.randrange(9)
    n = rng.choice((3, 8, 60))
    scale = rng.choice((1, 1, 1, 0.25, 1024, 2.0**20, 2.0**-20, 2.0**-40))
    off = rng.choice(((0, 0), (0, 0), (1000, -3000)))
    if k == 0:
        pts = [ints(rng, n) for _ in range(4)]
    elif k == 1:        # shared end
        a = ints(rng, n)
        pts = [a, ints(rng, n), a, ints(rng, n)]
        if rng.random() < 0.5:
            pts[0], pts[1] = pts[1], pts[0]
        if rng.random() < 0.5:
            pts[2], pts[3] = pts[3], pts[2]
    elif k == 2:        # T-junction at a lattice point of p
        a, d = ints(rng, n), ints(rng, 4)
        m = rng.randint(1, 5)
        j = rng.randint(0, m)
        pts = [a, (a[0]+m*d[0], a[1]+m*d[1]), (a[0]+j*d[0], a[1]+j*d[1]), ints(rng, n)]
        if rng.random() < 0.5:
            pts[2], pts[3] = pts[3], pts[2]
        if rng.random() < 0.5:
            pts = pts[2:] + pts[:2]
    elif k == 3:        # axis aligned
        x1, x2, y = rng.randint(-n, n), rng.randint(-n, n), rng.randint(-n, n)
        x, y1, y2 = rng.randint(-n, n), rng.randint(-n, n), rng.randint(-n, n)
        if rng.random() < 0.5:
            y = rng.choice((y1, y2))
        pts = [(x1, y), (x2, y), (x, y1), (x, y2)]
        if rng.random() < 0.5:
            pts = pts[2:] + pts[:2]
    elif k == 4:        # axis aligned against anything
        x1, x2, y = rng.randint(-n, n), rng.randint(-n, n), rng.randint(-n, n)
        pts = [(x1, y), (x2, y), ints(rng, n), ints(rng, n)]
        if rng.random() < 0.5:
            pts = [(b, a) for a, b in pts]
    elif k == 5:        # parallel (maybe collinear)
        a, d = ints(rng, n), ints(rng, 5)
        b = ints(rng, n) if rng.random() < 0.5 else (a[0]+d[0]*rng.randint(-4, 4), a[1]+d[1]*rng.randint(-4, 4))
        f, g = rng.choice((-2, -1, 1, 3)), rng.choice((1, 2))
        pts = [a, (a[0]+g*d[0], a[1]+g*d[1]), b, (b[0]+f*d[0], b[1]+f*d[1])]
    elif k == 6:        # crossing through a common lattice point
        c, d, e = ints(rng, n), ints(rng, 5), ints(rng, 5)
        i, j, l, m = (rng.randint(0, 3) for _ in range(4))
        pts = [(c[0]-i*d[0], c[1]-i*d[1]), (c[0]+j*d[0], c[1]+j*d[1]),
               (c[0]-l*e[0], c[1]-l*e[1]), (c[0]+m*e[0], c[1]+m*e[1])]
    elif k == 7:        # floats
        s = 10.0 ** rng.choice((-9, -3, 0, 0, 2, 6, 9))
        return [(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(4)], False
    else:               # floats with a large offset
        s, o = 10.0 ** rng.choice((0, 1, 2)), 10.0 ** rng.choice((3, 5, 7, 9))
        ox, oy = rng.uniform(-o, o), rng.uniform(-o, o)
        return [(ox+rng.uniform(-s, s), oy+rng.uniform(-s, s)) for _ in range(4)], False
    return [((x+off[0])*scale, (y+off[1])*scale) for x, y in pts], True


def mk(rng, a, b):
    k = rng.randrange(4)
    if k == 0:
        return Line(Point(*a), Point(*b))
    if k == 1:
        return Line(Point(*a), Vector(b[0]-a[0], b[1]-a[1]))
    if k == 2:
        return Line.from_pts(Point(*a), Point(*b))
    p, q = Point(*a), PointRelative(0, 0, Point(*b))
    return Line(p, VectorRelative(q, p))


def segments(rng, mon):
    pts, ok = two_segments(rng)
    if pts[0] == pts[1] or pts[2] == pts[3]:
        mon.count('degenerate')
        return
    a, b = mk(rng, pts[0], pts[1]), mk(rng, pts[2], pts[3])
    res = exact(*pts)
    size = max(abs(v) for p in pts for v in p)
    la = math.hypot(pts[1][0]-pts[0][0], pts[1][1]-pts[0][1])
    lb = math.hypot(pts[3][0]-pts[2][0], pts[3][1]-pts[2][1])
    if res[0] == 'parallel':
        if not ok:
            return
        mon.raises(ParallelLineError, lambda: a.intersection(b), 'parallel', pts)
        mon.check(a.parallel(b) and b.parallel(a), 'parallel', pts)
        # disjoint parallel segments never produce a point
        for x, y in ((a, b), (b, a)):
            try:
                got = x.segment_intersection(y)
            except ParallelLineError:
                got = None
            mon.check(got is None, 'parallel-segment', pts, got)
        mon.sig('parallel', pts)
        return
    _, t, s = res
    ux, uy = F(pts[1][0])-F(pts[0][0]), F(pts[1][1])-F(pts[0][1])
    det = ux*(F(pts[3][1])-F(pts[2][1])) - uy*(F(pts[3][0])-F(pts[2][0]))
    cond = la*lb/abs(float(det)) if det else float('inf')
    if cond > 1e4 or (not ok and size/min(la, lb) > 1e12):
        mon.count('ill-conditioned')
        return
    eps = 1e-9 if ok else 1e-13 * cond * (1 + size/min(la, lb)) + 1e-9
    px, py = float(F(pts[0][0]) + t*ux), float(F(pts[0][1]) + t*uy)
    tol = (1e-12 if ok else 1e-11) * cond * max(size, abs(px), abs(py), la, lb)
    # infinite lines
    for x, y in ((a, b), (b, a)):
        got = x.intersection(y)
        mon.check(math.hypot(got.x-px, got.y-py) <= tol, 'intersection', pts, got, (px, py), tol)
    mon.check(not a.parallel(b), 'parallel', pts)
    # the same lines, given by directions of any length and sign
    f, g = (rng.choice((1, -1)) * 2.0**rng.randint(-30, 30) for _ in range(2))
    x, y = Line(a.origin, a.direction*f), Line(b.origin, b.direction*g)
    got = x.intersection(y)
    mon.check(math.hypot(got.x-px, got.y-py) <= tol, 'intersection', 'scaled', pts, f, g, got, (px, py), tol)
    # segments
    hit = 0 <= t <= 1 and 0 <= s <= 1
    border = any(abs(float(v)) < eps or abs(float(v) - 1) < eps for v in (t, s))
    if border and not ok:
        mon.count('float-borderline')
        return
    one, two = a.segment_intersection(b), b.segment_intersection(a)
    for got, tt, ss, first, second in ((one, t, s, a, b), (two, s, t, b, a)):
        if hit:
            if border:
                mon.count('touch')
            if not mon.check(got is not None, 'segment-hit', pts, float(t), float(s)):
                continue
            p, t1, t2 = got
            mon.check(0 <= t1 <= 1 and 0 <= t2 <= 1, 'segment-range', pts, t1, t2)
            mon.check(abs(t1-float(tt)) <= eps and abs(t2-float(ss)) <= eps, 'segment-params', pts, t1, t2, float(tt), float(ss))
            mon.check(math.hypot(p.x-px, p.y-py) <= tol, 'segment-point', pts, p, (px, py))
            for ln, tv in ((first, t1), (second, t2)):
                q = ln.origin + ln.direction * tv
                mon.check(math.hypot(q.x-p.x, q.y-p.y) <= 10*tol + eps*max(la, lb), 'segment-locates', pts, tv)
        else:
            mon.check(got is None, 'segment-miss', pts, got, float(t), float(s))
    mon.sig(pts)
    mon.sample(pts, float(t), float(s), hit)


def single(rng, mon):
    big = rng.choice((1, 1, 100, 1e6))
    o = (rng.uniform(-50, 50)*big, rng.uniform(-50, 50)*big) if rng.random() < 0.6 else ints(rng)
    d = (rng.uniform(-50, 50), rng.uniform(-50, 50)) if rng.random() < 0.6 else ints(rng)
    if d == (0, 0):
        d = (0, rng.choice((1, -1, 1e-6)))
    dl = math.hypot(*d)
    a = Line(Point(*o), Vector(*d))
    p = (rng.uniform(-90, 90)*big, rng.uniform(-90, 90)*big)
    if rng.random() < 0.2:
        k = rng.uniform(-5, 5)
        p = (o[0]+k*d[0], o[1]+k*d[1])
    if rng.random() < 0.3:      # the same picture, tiny
        f = 2.0**rng.choice((-10, -30, -40))
        o, d, p = ((v[0]*f, v[1]*f) for v in (o, d, p))
        dl *= f
        a = Line(Point(*o), Vector(*d))
        mon.count('tiny')
    q = a.closest(Point(*p))
    sc = max(abs(v) for v in o + p + d)
    t = ((p[0]-o[0])*d[0] + (p[1]-o[1])*d[1]) / dl / dl
    exp = (o[0]+t*d[0], o[1]+t*d[1])
    mon.near(tuple(q.xy()), exp, 'closest', o, d, p, scale=sc*10)
    best = math.hypot(p[0]-q.x, p[1]-q.y)
    for k in (t-1, t+1, t+0.01, t-0.01, 0, 1, rng.uniform(-9, 9)):
        r = (o[0]+k*d[0], o[1]+k*d[1])
        mon.check(best <= math.hypot(p[0]-r[0], p[1]-r[1]) + 1e-9*sc, 'closest-optimal', o, d, p, k)
    # accessors
    mon.near(tuple(a.p1.xy()) + tuple(a.p2.xy()) + tuple(a.midpoint.xy()),
             o + (o[0]+d[0], o[1]+d[1], o[0]+d[0]/2, o[1]+d[1]/2), 'accessors', o, d, scale=sc)
    v = gen.vec(rng)
    for got, sg in ((a + v, 1), (a - v, -1)):
        mon.near(tuple(got.origin.xy()) + tuple(got.direction.xy()), (o[0]+sg*v.x, o[1]+sg*v.y) + tuple(d), 'shifted',
                 o, d, scale=sc)
    bb = a.segment_bbox()
    mon.check(isinstance(bb, BBox), 'segment_bbox')
    mon.near(tuple(bb), (min(o[0], o[0]+d[0]), min(o[1], o[1]+d[1]), max(o[0], o[0]+d[0]), max(o[1], o[1]+d[1])),
             'segment_bbox', o, d, scale=sc)
    if rng.random() < 0.3:
        # the ends of a line move with its origin and direction
        live = Line(Point(*o), Vector(*d))
        first = live.p1, live.p2, live.midpoint, live.segment_bbox()
        no, nd = gen.xy(rng), gen.xy(rng)
        if rng.random() < 0.5:
            live.origin.setxy(*no)
            live.direction.setxy(*nd)
        else:
            live.origin, live.direction = Point(*no), Vector(*nd)
        sn = max(abs(v) for v in no + nd)
        mon.near(tuple(live.p1.xy()) + tuple(live.p2.xy()) + tuple(live.midpoint.xy()),
                 no + (no[0]+nd[0], no[1]+nd[1], no[0]+nd[0]/2, no[1]+nd[1]/2), 'accessors', 'moved', no, nd, scale=sn)
        mon.near(tuple(live.segment_bbox()), (min(no[0], no[0]+nd[0]), min(no[1], no[1]+nd[1]), max(no[0], no[0]+nd[0]),
                                              max(no[1], no[1]+nd[1])), 'segment_bbox', 'moved', no, nd, scale=sn)
        mon.near(first[1].xy(), (o[0]+d[0], o[1]+d[1]), 'accessors', 'earlier end', scale=sc)
    mon.check(a == Line(Point(*o), Vector(*d)) and a != Line(Point(*o), Vector(d[0]+1, d[1])) and a != 5, 'eq', o, d)
    mon.sig('single', [round(x, 6) for x in o + tuple(d) + p])


def polygon(rng, mon):
    n = gen.some(rng, 3, 9, 60)
    exact_ = rng.random() < 0.6
    pts = [ints(rng, 30) if exact_ else gen.xy(rng) for _ in range(n)]
    real = [Point(*p) if rng.random() < 0.8 else PointRelative(p[0], p[1], Point(0, 0)) for p in pts]
    size = max([abs(x) for p in pts for x in p] + [1e-3])**2
    exp = float(ref.shoelace([ref.frac(p) for p in pts]))
    mon.near(polygon_area(real), exp, 'area', pts, scale=size)
    k = rng.randrange(n)
    mon.near(polygon_area(real[k:] + real[:k]), exp, 'area', 'rotated start', pts, k, scale=size)
    mon.near(polygon_area(real[::-1]), -exp, 'area', 'reversed', pts, scale=size)
    v = gen.vec(rng)
    moved = (size**0.5 + abs(v.x) + abs(v.y))**2
    mon.near(polygon_area([p + v for p in real]), exp, 'area', 'translated', pts, scale=moved)
    # ccw regular polygon is positive
    c, r = gen.xy(rng), rng.uniform(0.5, 50)
    a0 = rng.uniform(0, 7)
    ring = [Point(c[0]+r*math.cos(a0+2*math.pi*i/n), c[1]+r*math.sin(a0+2*math.pi*i/n)) for i in range(n)]
    want = n*r*r*math.sin(2*math.pi/n)/2
    mon.near(polygon_area(ring), want, 'area', 'ccw ring', n, r, scale=(r + abs(c[0]) + abs(c[1]))**2)
    if r > 1e-6*(abs(c[0]) + abs(c[1])):
        mon.check(polygon_area(ring) > 0 > polygon_area(ring[::-1]), 'orientation', n, r)
    mon.sig('poly', [round(x, 6) for p in pts for x in p])


KINDS = [(segments, 20000, 150000), (single, 6000, 30000), (polygon, 4000, 20000)]
