"""C01: relative geometry always tracks the live position of its bases."""
import math

from x7.geom.geom import Point, PointRelative, PointCalc, Vector, VectorRelative, BBox, Line, polygon_area
from x7.geom.bezier import ControlPoint, bez
from x7.geom.transform import Transform
from monlib import gen, ref

CLASSES = {c.__name__: c for c in (Point, PointRelative, PointCalc, Vector, VectorRelative)}
TECHNIQUE = 'runtime monitoring: shadow dependency graph checked online after every mutation'
RULE = ('seeded dependency graphs of 1-4 base points, 1-4 relative points (chained), computed points, relative vectors and '
        'control points over them; 3-14 random moves (set, setxy, restore, offset and scale edits, re-basing) each followed '
        'by probes of every accessor and operation against coordinates recomputed from a shadow graph. The same over '
        'numbers without any rounding, from 2**-40 up, read back exactly. Non-trivial: a dependent node changed value through a move of something it depends on; distinct by graph shape and final values.')
ASSUMPTIONS = ['floating-point agreement at 1e-9 relative to the magnitudes involved',
               'cyclic graphs are not built; a copy of a relative vector may or may not follow the original bases']
REQUIRED = {'tracked': 3000, 'moved-through-base': 3000, 'fixed-detached': 1000, 'copy-detached': 500, 'cp': 500, 'exact': 100000,
            'exact-direction': 5000}


class Node(object):
    """A real object and how to compute its position from the shadow"""
    def __init__(self, kind, real, pos, deps):
        self.kind, self.real, self.pos, self.deps = kind, real, pos, deps


class Shadow(object):
    def __init__(self, rng):
        self.rng = rng
        self.vals = {}      # id -> numbers
        self.points, self.vectors = [], []
        self.trail = []

    def xy(self):
        return gen.xy(self.rng)

    def factor(self):
        return self.rng.choice((-1, 0, 2, 0.5, self.rng.uniform(-3, 3)))

    def base(self):
        x, y = self.xy()
        p = Point(x, y, self.rng.choice((None, 'p')))
        key = len(self.vals)
        self.vals[key] = [x, y]
        n = Node('P', p, lambda: tuple(self.vals[key]), ())
        n.key = key
        self.points.append(n)

    def relative(self):
        b = self.rng.choice(self.points)
        x, y = self.xy()
        key = len(self.vals)
        if self.rng.random() < 0.3:
            real = PointRelative.fromxy(x, y, b.real)
            bx, by = b.pos()
            x, y = x - bx, y - by
        else:
            real = PointRelative(x, y, b.real, self.rng.choice((None, 'r')))
        self.vals[key] = [x, y]
        n = Node('R', real, None, (b,))
        n.key = key
        n.pos = lambda: (n.deps[0].pos()[0] + self.vals[key][0], n.deps[0].pos()[1] + self.vals[key][1])
        self.points.append(n)

    def calc(self):
        rel = [p for p in self.points if p.kind == 'R']
        if not rel:
            return
        b = self.rng.choice(rel)
        s = self.factor()
        key = len(self.vals)
        self.vals[key] = [s]
        n = Node('C', PointCalc(b.real, s, self.rng.choice((None, 'c'))), None, (b,))
        n.key = key

        def pos():
            bx, by = n.deps[0].deps[0].pos()
            s = self.vals[key][0]
            dx, dy = self.vals[n.deps[0].key]
            return s*dx + bx, s*dy + by
        n.pos = pos
        self.points.append(n)

    def vector(self):
        a, b = self.rng.choice(self.points), self.rng.choice(self.points)
        n = Node('V', VectorRelative(a.real, b.real), None, (a, b))
        n.pos = lambda: (a.pos()[0] - b.pos()[0], a.pos()[1] - b.pos()[1])
        self.vectors.append(n)

    def depends(self, n, on):
        return n is on or any(self.depends(d, on) for d in n.deps)

    def move(self):
        """One random mutation of a real object, mirrored in the shadow"""
        n = self.rng.choice([p for p in self.points if p.kind in 'PRC'])
        x, y = self.xy()
        if n.kind == 'P':
            how = self.rng.choice(('setxy', 'set', 'restore', 'set-other'))
            if how == 'setxy':
                n.real.setxy(x, y)
            elif how == 'set':
                n.real.set(Point(x, y))
            elif how == 'restore':
                n.real.restore(Point(x, y))
            else:
                other = self.rng.choice(self.points)
                x, y = other.pos()
                n.real.set(other.real)
            self.vals[n.key] = [x, y]
        elif n.kind == 'R':
            how = self.rng.choice(('dx', 'dy', 'rebase'))
            if how == 'dx':
                n.real.dx = x
                self.vals[n.key][0] = x
            elif how == 'dy':
                n.real.dy = y
                self.vals[n.key][1] = y
            else:
                ok = [p for p in self.points if not self.depends(p, n)]
                if not ok:
                    return n, 'none'
                b = self.rng.choice(ok)
                n.real.base = b.real
                n.deps = (b,)
        else:
            how = 'scale'
            s = self.factor()
            n.real.scale = s
            self.vals[n.key] = [s]
        self.trail.append((n.kind, how))
        return n, how


class Exact(Shadow):
    """Coordinates are multiples of a power of two, so that sums and differences have no rounding at all"""
    def __init__(self, rng):
        super().__init__(rng)
        self.unit = 2.0 ** rng.choice((-40, -30, -24, -20, -16, -10, -4, 0, 4, 10))

    def xy(self):
        x, y = (self.rng.choice((self.rng.randint(-3, 3), self.rng.randint(-1000, 1000)))*self.unit for _ in 'xy')
        if self.rng.random() < 0.3 and self.points:
            # next to another point
            px, py = self.rng.choice(self.points).pos()
            x, y = px + self.rng.randint(-1, 1)*self.unit, py + self.rng.randint(-1, 1)*self.unit
        return x, y

    def factor(self):
        return self.rng.choice((-1, 0, 2, 1, -2, 3, 0.5))


def build(rng, kind=Shadow):
    g = kind(rng)
    for _ in range(rng.randint(1, 4)):
        g.base()
    for _ in range(rng.randint(1, 4)):
        g.relative()
    for _ in range(rng.randint(0, 2)):
        g.calc()
    for _ in range(rng.randint(1, 3)):
        g.vector()
    return g


def close_vec(mon, got, exp, name, *d):
    mon.check(isinstance(got, Vector), name + '-type', type(got), *d)
    mon.near(tuple(got.xy()), exp, name, *d, scale=1e4)


def probe_point(mon, rng, n, g):
    p, (x, y) = n.real, n.pos()
    d = (n.kind, g.trail)
    mon.near(tuple(p.xy()), (x, y), 'tracked', 'xy', *d, scale=1e3)
    mon.near((p.x, p.y), (x, y), 'tracked', 'x/y', *d, scale=1e3)
    mon.near(tuple(p), (x, y), 'tracked', 'iter', *d, scale=1e3)
    mon.near(tuple(p.v.xy()), (x, y), 'tracked', 'v', *d, scale=1e3)
    mon.near(tuple(p.fixed().xy()), (x, y), 'tracked', 'fixed', *d, scale=1e3)
    mon.near(tuple(p.copy().xy()), (x, y), 'tracked', 'copy', *d, scale=1e3)
    mon.near(tuple((-p).xy()), (-x, -y), 'tracked', 'neg', *d, scale=1e3)
    q = rng.choice(g.points)
    qx, qy = q.pos()
    mon.near(tuple((p - q.real).xy()), (x-qx, y-qy), 'tracked', 'sub', *d, scale=1e3)
    mon.near(tuple(p.mid(q.real).xy()), ((x+qx)/2, (y+qy)/2), 'tracked', 'mid', *d, scale=1e3)
    v = gen.vec(rng)
    vx, vy = v.xy()
    mon.near(tuple((p + v).xy()), (x+vx, y+vy), 'tracked', 'p+v', *d, scale=1e3)
    mon.near(tuple((v + p).xy()), (x+vx, y+vy), 'tracked', 'v+p', *d, scale=1e3)
    mon.near(tuple((p - v).xy()), (x-vx, y-vy), 'tracked', 'p-v', *d, scale=1e3)
    mon.check(p.close(Point(x, y), 1e-6) and not p.close(Point(x + 1, y)), 'tracked', 'close', *d)
    k = rng.randrange(5)
    if k == 0:
        r = round(p, 2)
        mon.check(isinstance(r, Point) and abs(r.x-x) <= 0.00501 and abs(r.y-y) <= 0.00501, 'tracked', 'round', *d)
    elif k == 1:
        b = BBox(p, q.real)
        mon.near(tuple(b), (min(x, qx), min(y, qy), max(x, qx), max(y, qy)), 'tracked', 'bbox', *d, scale=1e3)
        b.grow(p)
        mon.near(tuple(b), (min(x, qx), min(y, qy), max(x, qx), max(y, qy)), 'tracked', 'grow', *d, scale=1e3)
    elif k == 2:
        m = gen.mat6(rng)
        mon.near(tuple(Transform(m).transform_pt(p).xy()), ref.aff(m, (x, y)), 'tracked', 'transform_pt', *d, scale=1e4)
        got = Transform(m).transform_pts([p, q.real])
        mon.near([c for g_ in got for c in g_.xy()], ref.aff(m, (x, y)) + ref.aff(m, (qx, qy)), 'tracked',
                 'transform_pts', *d, scale=1e4)
    elif k == 3:
        ln = Line(p, q.real)
        mon.near(tuple(ln.midpoint.xy()), ((x+qx)/2, (y+qy)/2), 'tracked', 'line', *d, scale=1e3)
    else:
        o = Point(*gen.xy(rng))
        mon.near(polygon_area([p, q.real, o]), ref.shoelace([(x, y), (qx, qy), o.xy()]), 'tracked', 'area', *d, scale=1e6)
    mon.near(tuple(eval(repr(p), CLASSES).xy()), (x, y), 'tracked', 'repr', *d, scale=1e3)
    if n.kind == 'C':
        mon.count('calc-probe')


def probe_vector(mon, rng, n, g):
    v, (x, y) = n.real, n.pos()
    d = g.trail
    ln = math.hypot(x, y)
    mon.near(tuple(v.xy()), (x, y), 'tracked', 'v.xy', d, scale=1e3)
    mon.near((v.x, v.y), (x, y), 'tracked', 'v.x/y', d, scale=1e3)
    mon.near(tuple(v), (x, y), 'tracked', 'v.iter', d, scale=1e3)
    mon.near(tuple(v.p.xy()), (x, y), 'tracked', 'v.p', d, scale=1e3)
    mon.near(tuple(v.fixed().xy()), (x, y), 'tracked', 'v.fixed', d, scale=1e3)
    mon.check(type(v.fixed()) is Vector, 'tracked', 'v.fixed-type', d)
    mon.near(tuple(v.copy().xy()), (x, y), 'tracked', 'v.copy', d, scale=1e3)
    mon.near(tuple(eval(repr(v), CLASSES).xy()), (x, y), 'tracked', 'v.repr', d, scale=1e3)
    mon.near(v.length(), ln, 'tracked', 'v.length', d, scale=1e3)
    mon.check(bool(v) == (tuple(v.xy()) != (0, 0)), 'tracked', 'v.bool', d)
    if ln > 1e-3:
        got = math.radians(v.angle()) - math.atan2(y, x)
        mon.near(math.cos(got), 1, 'tracked', 'v.angle', d)
        close_vec(mon, v.unit(), (x/ln, y/ln), 'tracked', 'v.unit', d)
    close_vec(mon, v.normal(), (y, -x), 'tracked', 'v.normal', d)
    close_vec(mon, -v, (-x, -y), 'tracked', '-v', d)
    f = rng.choice((2, 0.5, -1, rng.uniform(-3, 3)))
    close_vec(mon, v * f, (x*f, y*f), 'tracked', 'v*f', d)
    close_vec(mon, f * v, (x*f, y*f), 'tracked', 'f*v', d)
    close_vec(mon, v / (f or 1), (x/(f or 1), y/(f or 1)), 'tracked', 'v/f', d)
    a = gen.angle(rng)
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    close_vec(mon, v.rotate(a), (c*x-s*y, s*x+c*y), 'tracked', 'v.rotate', d)
    w = gen.vec(rng)
    wx, wy = w.xy()
    close_vec(mon, v + w, (x+wx, y+wy), 'tracked', 'v+w', d)
    close_vec(mon, w + v, (x+wx, y+wy), 'tracked', 'w+v', d)
    close_vec(mon, v - w, (x-wx, y-wy), 'tracked', 'v-w', d)
    close_vec(mon, w - v, (wx-x, wy-y), 'tracked', 'w-v', d)
    mon.near(v.dot(w), x*wx + y*wy, 'tracked', 'dot', d, scale=1e5)
    mon.near(w.dot(v), x*wx + y*wy, 'tracked', 'dot', d, scale=1e5)
    mon.near(v.cross(w), x*wy - y*wx, 'tracked', 'cross', d, scale=1e5)
    mon.near(w.cross(v), wx*y - wy*x, 'tracked', 'cross', d, scale=1e5)
    r = round(v, 3)
    mon.check(abs(r.x-x) <= 0.00101 and abs(r.y-y) <= 0.00101, 'tracked', 'v.round', d)
    p = rng.choice(g.points)
    px, py = p.pos()
    mon.near(tuple((p.real + v).xy()), (px+x, py+y), 'tracked', 'p+rv', d, scale=1e3)
    mon.near(tuple((v + p.real).xy()), (px+x, py+y), 'tracked', 'rv+p', d, scale=1e3)
    mon.near(tuple((p.real - v).xy()), (px-x, py-y), 'tracked', 'p-rv', d, scale=1e3)
    mon.check(v.close(Vector(x, y), 1e-6), 'tracked', 'v.close', d)


def probe_cp(mon, rng, cp, parts, g):
    (c, l, r) = (p() for p in parts)
    L, R = (c[0]+l[0], c[1]+l[1]), (c[0]+r[0], c[1]+r[1])
    mon.near(tuple(cp.c.xy()) + tuple(cp.l.xy()) + tuple(cp.r.xy()), c + L + R, 'cp', g.trail, scale=1e3)
    b = cp.bbox()
    xs, ys = zip(c, L, R)
    mon.near(tuple(b), (min(xs), min(ys), max(xs), max(ys)), 'cp', 'bbox', g.trail, scale=1e3)
    m = gen.mat6(rng)
    t = cp.transform(Transform(m))
    mon.near(gen.cp_tuple(t)[0] + tuple(t.l.xy()) + tuple(t.r.xy()), ref.aff(m, c) + ref.aff(m, L) + ref.aff(m, R),
             'cp', 'transform', g.trail, scale=1e4)
    for name, dup in (('fixed', cp.fixed()), ('reversed', cp.reversed()), ('copy', cp.copy())):
        exp = c + (R + L if name == 'reversed' else L + R)
        mon.near(tuple(dup.c.xy()) + tuple(dup.l.xy()) + tuple(dup.r.xy()), exp, 'cp', name, g.trail, scale=1e3)


def history(rng, mon):
    g = build(rng)
    nodes = g.points + g.vectors
    # control points over the graph
    cps = []
    for _ in range(rng.randint(0, 2)):
        c = rng.choice(g.points)
        hs = []
        for _ in range(2):
            if rng.random() < 0.6:
                v = rng.choice(g.vectors)
                hs.append((v.real, v.pos))
            else:
                v = gen.vec(rng)
                xy_ = tuple(v.xy())
                hs.append((v, lambda xy_=xy_: xy_))
        cps.append((ControlPoint(c.real, hs[0][0], hs[1][0]), (c.pos, hs[0][1], hs[1][1])))
    frozen, twins = [], []
    moved = 0
    for _ in range(rng.randint(3, 14)):
        before = {id(n): n.pos() for n in nodes}
        if rng.random() < 0.5:
            n = rng.choice(nodes)
            f = n.real.fixed()
            frozen.append((f, tuple(f.xy()), n.pos(), list(g.trail)))
            mon.check(type(f) in (Point, Vector), 'fixed-absolute', type(f))
        if rng.random() < 0.3 and cps:
            cp, parts = rng.choice(cps)
            f = cp.fixed()
            frozen.append((f.c, tuple(f.c.xy()), parts[0](), list(g.trail)))
            frozen.append((f.dl, tuple(f.dl.xy()), parts[1](), list(g.trail)))
            frozen.append((f.dr, tuple(f.dr.xy()), parts[2](), list(g.trail)))
        n, how = g.move()
        for m in nodes:
            if m is not n and m.pos() != before[id(m)]:
                moved += 1
                mon.count('moved-through-base')
        for m in rng.sample(nodes, min(len(nodes), 4)):
            (probe_vector if m.kind == 'V' else probe_point)(mon, rng, m, g)
        for cp, parts in cps:
            probe_cp(mon, rng, cp, parts, g)
        for f, xy_, val, trail in frozen:
            mon.check(tuple(f.xy()) == xy_, 'fixed-detached', 'moved later', trail, g.trail)
        for f, xy_, val, trail in frozen[-3:]:
            mon.near(xy_, val, 'fixed-detached', 'value', trail, scale=1e3)
        # changing a copy never changes the original
        m = rng.choice(g.points)
        dup = m.real.copy()
        mon.check(type(dup) is type(m.real) and dup == m.real and dup.name == m.real.name, 'copy-equal', m.kind)
        was = m.pos()
        if m.kind == 'P':
            dup.setxy(was[0] + 5, was[1] - 7)
        elif m.kind == 'R':
            dup.dx, dup.dy = dup.dx + 5, dup.dy - 7
            if rng.random() < 0.3:
                dup.base = Point(1000, 1000)
        else:
            dup.scale = 17
        mon.near(tuple(m.real.xy()), was, 'copy-detached', m.kind, scale=1e3)
        if m.kind == 'R':
            b = m.deps[0].pos()
            if dup.base is m.deps[0].real:
                mon.near(tuple(dup.xy()), (was[0]+5, was[1]-7), 'copy-follows', scale=1e3)
    for m in nodes:
        (probe_vector if m.kind == 'V' else probe_point)(mon, rng, m, g)
    if moved:
        mon.sig([n.kind for n in nodes], g.trail, [tuple(round(v, 4) for v in n.pos()) for n in nodes])
        mon.sample([n.kind for n in nodes], g.trail)


def curve(rng, mon):
    """bez() and drawn curves over points that move later"""
    b = Point(*gen.xy(rng))
    r = PointRelative(*gen.xy(rng), b)
    pts = [b, r, PointCalc(r, 2), PointRelative(1, 2, r)]
    for _ in range(3):
        got = bez(pts, steps=6, as_xy=True)
        want = [tuple(b.xy())]
        bx, by = b.xy()
        p1 = (bx + r.dx, by + r.dy)
        p2 = (bx + 2*r.dx, by + 2*r.dy)
        p3 = (p1[0] + 1, p1[1] + 2)
        exp = [ref.cubic(((bx, by), p1, p2, p3), i/6) for i in range(7)]
        mon.near([v for p in got for v in p], [v for p in exp for v in p], 'curve-over-moving', scale=1e3)
        b.setxy(*gen.xy(rng))
        r.dx = rng.uniform(-9, 9)
    mon.sig('curve', tuple(b.xy()), r.dx)
    del want


def exact(rng, mon):
    """Histories over numbers without rounding: what is read is exactly what the bases say, at every size"""
    g = build(rng, Exact)
    for _ in range(rng.randint(3, 14)):
        g.move()
        for n in rng.sample(g.points, min(3, len(g.points))):
            p, (x, y) = n.real, n.pos()
            d = (n.kind, g.unit, g.trail)
            q = rng.choice(g.points)
            qx, qy = q.pos()
            for what, got, want in (('xy', p.xy(), (x, y)), ('x/y', (p.x, p.y), (x, y)), ('iter', p, (x, y)), ('v', p.v, (x, y)),
                                    ('fixed', p.fixed(), (x, y)), ('copy', p.copy(), (x, y)), ('neg', -p, (-x, -y)),
                                    ('sub', p - q.real, (x-qx, y-qy)), ('mid', p.mid(q.real), ((x+qx)/2, (y+qy)/2)),
                                    ('bbox', BBox(p, q.real), (min(x, qx), min(y, qy), max(x, qx), max(y, qy))),
                                    ('line', Line(p, q.real).midpoint, ((x+qx)/2, (y+qy)/2))):
                mon.check(tuple(got) == want, 'exact', what, tuple(got), want, *d)
            mon.check(p.close(Point(x, y), g.unit/4) and not p.close(Point(x, y + g.unit), g.unit/4), 'exact', 'close', *d)
        for n in g.vectors:
            v, (x, y) = n.real, n.pos()
            d = (g.unit, g.trail)
            w = Vector(*g.xy())
            wx, wy = w.xy()
            for what, got, want in (('v.xy', v.xy(), (x, y)), ('v.x/y', (v.x, v.y), (x, y)), ('v.iter', v, (x, y)),
                                    ('v.fixed', v.fixed(), (x, y)), ('v.copy', v.copy(), (x, y)), ('v.p', v.p, (x, y)),
                                    ('v.neg', -v, (-x, -y)), ('v.normal', v.normal(), (y, -x)), ('v*2', v*2, (2*x, 2*y)),
                                    ('2*v', 2*v, (2*x, 2*y)), ('v/2', v/2, (x/2, y/2)), ('v+w', v+w, (x+wx, y+wy)),
                                    ('w-v', w-v, (wx-x, wy-y))):
                mon.check(tuple(got) == want, 'exact', what, tuple(got), want, *d)
            mon.check(bool(v) == ((x, y) != (0, 0)), 'exact', 'v.bool', x, y, *d)
            mon.check((v.length() > 0) == ((x, y) != (0, 0)), 'exact', 'v.length', x, y, *d)
            if (x, y) != (0, 0):
                ln = math.hypot(x, y)
                mon.near(v.length()/ln, 1, 'exact', 'length', x, y, *d)
                mon.near(tuple(v.unit()), (x/ln, y/ln), 'exact', 'unit', x, y, *d)
                mon.near(math.cos(math.radians(v.angle()) - math.atan2(y, x)), 1, 'exact', 'angle', x, y, *d)
                mon.count('exact-direction')
            wl = math.hypot(wx, wy)
            mon.near(v.dot(w)/(g.unit*g.unit), (x*wx + y*wy)/(g.unit*g.unit), 'exact', 'dot', *d, scale=math.hypot(x, y)*wl/g.unit**2)
            mon.near(v.cross(w)/(g.unit*g.unit), (x*wy - y*wx)/(g.unit*g.unit), 'exact', 'cross', *d,
                     scale=math.hypot(x, y)*wl/g.unit**2)
    mon.sig('exact', g.unit, [n.kind for n in g.points], [n.pos() for n in g.points])


KINDS = [(history, 4500, 30000), (curve, 600, 3000), (exact, 3000, 20000)]
