"""C03: bounding boxes form a consistent lattice and predicates agree."""
from x7.geom.geom import BBox, Point, PointRelative, Vector
from x7.geom.transform import Transform
from monlib import gen, ref

TECHNIQUE = 'runtime monitoring: lattice laws and predicates checked online against interval arithmetic on the corners'
RULE = ('seeded pairs and triples of boxes drawn from a small grid (so touching, corner touching, containment, equality and '
        'overlap are all frequent) and from wide ranges, built in every spelling and corner order; plus points on, inside and '
        'outside. Non-trivial: both boxes have area; distinct by rounded corners.')
ASSUMPTIONS = ['touch/overlap predicates are judged for boxes of non-zero area; a box never has NaN corners']
REQUIRED = {'overlaps': 1900, 'touches': 1900, 'case-touch': 100, 'case-corner': 30, 'case-contain': 100, 'point': 3000,
            'none-box': 200, 'expand': 500, 'edited': 2000}


def corners(rng, small):
    if small:
        n = rng.choice((3, 4, 6))
        # the grid of this case: mostly the unit grid, otherwise one of another size and place (every value is exact)
        f, x0, y0 = rng.__dict__.setdefault('_grid', (1, 0, 0) if rng.random() < 0.75 else
                                            (2.0**rng.randint(-30, 24), rng.randint(-4000, 4000), rng.randint(-4, 4)))
        return tuple((rng.randint(0, n) * rng.choice((1, 1, 0.5)) + o)*f for o in (x0, y0, x0, y0))
    return tuple(gen.num(rng) for _ in range(4))


def build(rng, c):
    """A box from the two opposite corners (x1, y1, x2, y2)"""
    k = rng.randrange(4)
    if k == 0:
        return BBox(*c)
    if k == 1:
        return BBox(tuple(c))
    if k == 2:
        return BBox(Point(c[0], c[1]), Point(c[2], c[3]))
    return BBox(PointRelative(0, 0, Point(c[0], c[1])), Point(c[2], c[3]))


def norm(c):
    return min(c[0], c[2]), min(c[1], c[3]), max(c[0], c[2]), max(c[1], c[3])


def tup(b):
    return tuple(b)


def r_union(a, b):
    return min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])


def r_inter(a, b):
    i = max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3])
    return None if i[0] > i[2] or i[1] > i[3] else i


def single(mon, rng, b, n):
    xl, yl, xh, yh = n
    mon.check(tup(b) == n and b.as_tuple() == n and (b.xl, b.yl, b.xh, b.yh) == n, 'normalised', n, tup(b))
    mon.check([b[i] for i in range(4)] == list(n), 'index', n)
    mon.check(b.pll.xy() == (xl, yl) and b.plh.xy() == (xl, yh) and b.phl.xy() == (xh, yl) and b.phh.xy() == (xh, yh)
              and b.p1.xy() == (xl, yl) and b.p2.xy() == (xh, yh), 'corners', n)
    sc = max(abs(v) for v in n)
    mon.near(b.center.xy(), ((xl+xh)/2, (yl+yh)/2), 'derived', 'center', n, scale=sc)
    mon.near((b.width, b.height), (xh-xl, yh-yl), 'derived', 'width/height', n, scale=sc)
    mon.near(b.size(), (xh-xl, yh-yl), 'derived', 'size', n, scale=sc)
    mon.near(b.area(), (xh-xl)*(yh-yl), 'derived', 'area', n, scale=sc*sc)
    mon.check(b.is_none is False or not b.is_none, 'is_none', n)
    mon.check(bool(b.is_empty) == (xl == xh or yl == yh), 'is_empty', n)
    dup = b.copy()
    mon.check(dup == b and dup is not b and type(dup) is BBox, 'copy', n)
    dup.xl -= 5
    mon.check(tup(b) == n, 'copy-independent', n)
    mon.check(dup != b and b != n, 'eq', n)


def points(mon, rng, b, n):
    xl, yl, xh, yh = n
    xs = [xl, xh, (xl+xh)/2, xl-1, xh+1]
    ys = [yl, yh, (yl+yh)/2, yl-1, yh+1]
    for x in xs:
        for y in ys:
            p = Point(x, y)
            inside = xl < x < xh and yl < y < yh
            edge = (x in (xl, xh) and yl < y < yh) or (y in (yl, yh) and xl < x < xh)
            c, t = b.contains_pt(p), b.touches_pt(p)
            mon.check(bool(c) == inside and bool(t) == edge and not (c and t), 'point', n, (x, y), c, t)
            g = b.copy()
            g.grow(p)
            mon.check(tup(g) == r_union(n, (x, y, x, y)), 'grow', n, (x, y), tup(g))
            mon.check(inside <= (tup(g) == n), 'grow-inside', n)


def pair(rng, mon):
    small = rng.random() < 0.7
    ca, cb = corners(rng, small), corners(rng, small)
    if rng.random() < 0.1:
        cb = ca
    a, b = build(rng, ca), build(rng, cb)
    na, nb = norm(ca), norm(cb)
    single(mon, rng, a, na)
    points(mon, rng, a, na)
    # lattice
    u, i = a + b, a.intersection(b)
    ru, ri = r_union(na, nb), r_inter(na, nb)
    mon.check(tup(u) == ru and tup(b + a) == ru, 'union', na, nb, tup(u))
    mon.check((i.is_none and ri is None) or (ri is not None and tup(i) == ri), 'intersection', na, nb, tup(i), ri)
    mon.check(tup(b.intersection(a)) == tup(i), 'intersection-symmetric', na, nb)
    mon.check(tup(a + a) == na and tup(a.intersection(a)) == na, 'idempotent', na)
    c = build(rng, corners(rng, small))
    mon.check((a + b) + c == a + (b + c), 'union-associative', na, nb, tup(c))
    mon.check(a.intersection(b).intersection(c) == a.intersection(b.intersection(c)), 'intersection-associative', na, nb,
              tup(c))
    mon.check(a + a.intersection(b) == a and a.intersection(a + b) == a, 'absorption', na, nb)
    mon.check(tup(a) == na and tup(b) == nb, 'operands', na, nb)
    none = BBox(None)
    mon.check(tup(a + none) == na and tup(none + a) == na and a.intersection(none).is_none and none.intersection(a).is_none,
              'none-box', na)
    # contains
    con = na[0] <= nb[0] and na[1] <= nb[1] and nb[2] <= na[2] and nb[3] <= na[3]
    mon.check(bool(a.contains(b)) == con, 'contains', na, nb)
    mon.check(bool(a.contains(b)) == (a + b == a), 'contains-union', na, nb)
    mon.check(bool(a.contains(b)) == (a.intersection(b) == b), 'contains-intersection', na, nb)
    if con:
        mon.count('case-contain')
    # predicates on boxes with area
    if na[0] < na[2] and na[1] < na[3] and nb[0] < nb[2] and nb[1] < nb[3]:
        over = ri is not None and ri[0] < ri[2] and ri[1] < ri[3]
        touch = ri is not None and not over
        side = touch and (ri[0] < ri[2] or ri[1] < ri[3])
        mon.check(bool(a.overlaps(b)) == over and bool(b.overlaps(a)) == over, 'overlaps', na, nb, over)
        mon.check(bool(a.touches(b)) == touch and bool(b.touches(a)) == touch, 'touches', na, nb, touch)
        mon.check(bool(a.touches_side(b)) == side and bool(b.touches_side(a)) == side, 'touches_side', na, nb, side)
        if side:
            mon.count('case-touch')
        elif touch:
            mon.count('case-corner')
        mon.sig([round(v, 6) for v in na + nb])
        mon.sample(na, nb, over, touch, side)


def none_box(rng, mon):
    none = rng.choice((BBox(None), BBox(None).copy(), BBox(0, 0, 1, 1).intersection(BBox(5, 5, 6, 6))))
    mon.check(none.is_none and none.is_empty and none.width == 0 and none.height == 0 and none.area() == 0
              and tuple(none.size()) == (0, 0) and tup(none) == (None,)*4, 'none-box')
    for attr in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
        mon.raises(ValueError, lambda: getattr(none, attr), 'none-box', attr)
    p = gen.pt(rng)
    mon.check(not none.contains_pt(p) and not none.touches_pt(p), 'none-box')
    b = build(rng, corners(rng, True))
    mon.check(not none.touches(b) and not b.touches(none) and not none.touches_side(b) and not b.touches_side(none),
              'none-box')
    mon.check(none == BBox(None) and none != b, 'none-box')
    g = none.copy()
    pts = [gen.xy(rng) for _ in range(rng.randint(1, 6))]
    for q in pts:
        g.grow(Point(*q))
    xs, ys = zip(*pts)
    mon.check(tup(g) == (min(xs), min(ys), max(xs), max(ys)), 'grow-none', pts, tup(g))
    mon.check(none.is_none, 'none-box', 'still none')
    for bad in (lambda: BBox([1, 2, 3, 4]), lambda: BBox(1, 2), lambda: BBox(Point(1, 2), 3), lambda: BBox('a')):
        mon.raises(TypeError, bad, 'bad-arguments')
    mon.sig('none', pts)


def shape(rng, mon):
    c = corners(rng, False)
    if max(abs(v) for v in c) > 1e5:
        c = tuple(v/1e4 for v in c)
    b, n = build(rng, c), norm(c)
    # transformed
    m = gen.mat6(rng)
    t = Transform(m)
    got = b.transformed(t)
    cs = [ref.aff(m, p) for p in ((n[0], n[1]), (n[0], n[3]), (n[2], n[1]), (n[2], n[3]))]
    xs, ys = zip(*cs)
    sc = max(abs(v) for v in xs + ys)
    mon.near(tup(got), (min(xs), min(ys), max(xs), max(ys)), 'transformed', n, m, scale=sc)
    # expand
    w, h = n[2]-n[0], n[3]-n[1]
    ex, ey = (gen.coord(rng), gen.coord(rng)) if rng.random() < 0.5 else (rng.uniform(-w, w), rng.uniform(-h, h))
    one = rng.random() < 0.4
    got = b.expand(ex) if one else b.expand(ex, ey)
    ey = ex if one else ey
    sc = max([1] + [abs(v) for v in n] + [abs(ex), abs(ey)])
    fx, fy = max(ex, -w/2), max(ey, -h/2)
    mon.near(tup(got), (n[0]-fx, n[1]-fy, n[2]+fx, n[3]+fy), 'expand', n, ex, ey, scale=sc)
    mon.check(got.xl <= got.xh and got.yl <= got.yh, 'expand-order', n, ex, ey)
    mon.near(got.center.xy(), b.center.xy(), 'expand-centre', n, ex, ey, scale=sc)
    mon.check(tup(b) == n, 'operands', n)
    d = rng.randint(0, 3)
    mon.check(tup(round(b, d)) == tuple(round(v, d) for v in n), 'round', n, d)
    # setters and sort
    s = b.copy()
    i = rng.randrange(4)
    s[i] = 1234.5
    e = list(n)
    e[i] = 1234.5
    mon.check(tup(s) == tuple(e), 'setitem', n, i)
    s.sort()
    mon.check(tup(s) == norm(e), 'sort', n, i)
    # edited in place: every accessor follows
    e = list(norm(e))
    for _ in range(rng.randint(1, 4)):
        k, i = rng.randrange(3), rng.randrange(4)
        v = rng.choice((e[i], e[i ^ 2], e[i] - 3.5 if i < 2 else e[i] + 3.5, gen.num(rng)))
        if k == 2:
            p = rng.choice((gen.xy(rng), (e[0]-2.5, e[3]+1.5), (e[2]+4, e[1]-1)))
            s.grow(Point(*p))
            e = list(r_union(e, p + p))
        else:
            if k:
                setattr(s, ('xl', 'yl', 'xh', 'yh')[i], v)
            else:
                s[i] = v
            e[i] = v
            s.sort()
            e = list(norm(e))
        single(mon, rng, s, tuple(e))
        mon.count('edited')
    mon.check(tup(b) == n, 'copy-independent', n, 'edits of the copy')
    mon.check(repr(b) and eval(repr(b), dict(BBox=BBox)) == b, 'repr', n)
    mon.sig('shape', [round(v, 6) for v in n], round(ex, 6), round(ey, 6))


KINDS = [(pair, 32000, 128000), (none_box, 800, 3200), (shape, 6000, 30000)]
_ = Vector
