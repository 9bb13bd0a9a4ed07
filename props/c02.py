"""C02: point/vector arithmetic obeys affine geometry."""
import math

from x7.geom.geom import BasePoint, Point, PointRelative, PointCalc, Vector, VectorRelative
from monlib import gen, ref

TECHNIQUE = 'runtime monitoring: operator results checked online against plain Euclidean arithmetic'
RULE = ('seeded operands of every concrete point and vector class (special magnitudes included) through every operator and '
        'query, plus well-formed and malformed coordinate lists through the parser. Non-trivial: not all operands are zero; '
        'distinct by classes and rounded operands.')
REQUIRED = {'type-error': 1000, 'euclid': 5000, 'parse': 500, 'parse-refused': 500}


def point(rng, kind=None):
    kind = kind or rng.choice('PPRRC')
    x, y = gen.num(rng), gen.num(rng)
    if kind == 'P':
        return Point(x, y)
    b = Point(gen.num(rng), gen.num(rng))
    r = PointRelative(x, y, b)
    if kind == 'R':
        return r
    return PointCalc(r, rng.choice((0, 1, -1, 2.5)))


def vector(rng):
    if rng.random() < 0.6:
        return Vector(gen.num(rng), gen.num(rng))
    return VectorRelative(point(rng), point(rng))


def fl(o):
    return tuple(float(v) for v in o.xy())


def algebra(rng, mon):
    p, q = point(rng), point(rng)
    u, v, w = vector(rng), vector(rng), vector(rng)
    k, n = gen.num(rng), rng.choice((1, 2, -3, 0.25, rng.uniform(0.1, 9)))
    P, Q, U, V, W = map(fl, (p, q, u, v, w))
    sc = max([1.0, abs(k)] + [abs(c) for t in (P, Q, U, V, W) for c in t])
    d = (type(p).__name__, type(q).__name__, type(u).__name__, type(v).__name__, P, Q, U, V, k)

    def vec(got, exp, name, scale=sc):
        mon.check(isinstance(got, Vector), 'kind', name, type(got), *d)
        mon.near(fl(got), exp, 'euclid', name, *d, scale=scale)

    def pt(got, exp, name):
        mon.check(isinstance(got, BasePoint), 'kind', name, type(got), *d)
        mon.near(fl(got), exp, 'euclid', name, *d, scale=sc)

    vec(p - q, (P[0]-Q[0], P[1]-Q[1]), 'p-q')
    pt(p + u, (P[0]+U[0], P[1]+U[1]), 'p+u')
    pt(u + p, (P[0]+U[0], P[1]+U[1]), 'u+p')
    pt(p - u, (P[0]-U[0], P[1]-U[1]), 'p-u')
    pt(-p, (-P[0], -P[1]), '-p')
    pt(q + (p - q), P, 'q+(p-q)')
    vec((p - q) + (q - p), (0, 0), '(p-q)+(q-p)')
    vec(u + v, (U[0]+V[0], U[1]+V[1]), 'u+v')
    vec(u - v, (U[0]-V[0], U[1]-V[1]), 'u-v')
    vec(-u, (-U[0], -U[1]), '-u')
    vec(u * k, (U[0]*k, U[1]*k), 'u*k', sc*sc)
    vec(k * u, (U[0]*k, U[1]*k), 'k*u', sc*sc)
    vec(u / n, (U[0]/n, U[1]/n), 'u/n', sc*10)
    vec((u + v) + w, (U[0]+V[0]+W[0], U[1]+V[1]+W[1]), 'assoc')
    vec((u + v) * k, fl(u*k + v*k), 'distributive', sc*sc)
    pt(p.mid(q), ((P[0]+Q[0])/2, (P[1]+Q[1])/2), 'mid')
    mon.near(u.dot(v), U[0]*V[0] + U[1]*V[1], 'euclid', 'dot', *d, scale=sc*sc)
    mon.near(u.cross(v), U[0]*V[1] - U[1]*V[0], 'euclid', 'cross', *d, scale=sc*sc)
    mon.near(u.length(), math.sqrt(U[0]**2 + U[1]**2), 'euclid', 'length', *d, scale=sc)
    vec(u.normal(), (U[1], -U[0]), 'normal')
    mon.near(tuple(p.v.xy()) + tuple(u.p.xy()), P + U, 'euclid', 'v/p', *d, scale=sc)
    mon.check(isinstance(p.v, Vector) and isinstance(u.p, BasePoint), 'kind', 'v/p', *d)
    mon.check(tuple(p) == tuple(p.xy()) and tuple(u) == tuple(u.xy()) and (p.x, p.y) == tuple(p.xy())
              and (u.x, u.y) == tuple(u.xy()), 'accessors', *d)
    mon.check(bool(u) == bool(u.x != 0 or u.y != 0), 'bool', *d)
    dist = math.hypot(P[0]-Q[0], P[1]-Q[1])
    for eps in (dist * 2 + 1e-3, dist * 1.05, dist * 0.95, dist * 0.75, dist * 0.5):
        if abs(eps - dist) > 1e-9 * sc and eps > 0:
            mon.check(bool(p.close(q, eps)) == (dist < eps), 'close', *d)
    dist = math.hypot(U[0]-V[0], U[1]-V[1])
    for eps in (dist * 2 + 1e-3, dist * 1.05, dist * 0.95, dist * 0.75, dist * 0.5):
        if abs(eps - dist) > 1e-9 * sc and eps > 0:
            mon.check(bool(u.close(v, eps)) == (dist < eps), 'close', *d)
    mon.check(p == p and p == p.copy() and u == u.copy() and not (p != p.copy()), 'eq', *d)
    mon.check((Vector(*U) == Vector(*V)) == (U == V) and (Point(*P) == Point(*Q)) == (P == Q), 'eq', *d)
    mon.check(Point(*P) != Vector(*P) and Vector(*P) != Point(*P), 'eq-kind', *d)
    for o in (p, q):        # points are equal when class, name and position are
        n1, n2 = o.copy(), o.copy()
        n1.name = n2.name = rng.choice((None, 'n', 'm'))
        mon.check(n1 == n2, 'eq', 'same name', *d)
        n2.name = 'other'
        mon.check(n1 != n2, 'eq-name', *d)
    # refused combinations
    mon.raises(TypeError, lambda: p + q, 'type-error', 'p+q', *d)
    mon.raises(TypeError, lambda: p * n, 'type-error', 'p*n', *d)
    mon.raises(TypeError, lambda: n * p, 'type-error', 'n*p', *d)
    mon.raises(TypeError, lambda: u - p, 'type-error', 'u-p', *d)
    mon.raises(TypeError, lambda: p / n, 'type-error', 'p/n', *d)
    mon.raises(TypeError, lambda: p + n, 'type-error', 'p+n', *d)
    mon.raises(TypeError, lambda: p * u, 'type-error', 'p*u', *d)
    if any(P + Q + U + V):
        mon.sig(d[:4], [round(c, 6) for t in (P, Q, U, V) for c in t])
        mon.sample(d)


def metric(rng, mon):
    u = vector(rng)
    x, y = fl(u)
    ln = math.hypot(x, y)
    if ln == 0:
        mon.raises(ZeroDivisionError, u.unit, 'unit-zero', x, y)
        mon.check(u.length() == 0 and not u, 'zero')
        raise_skip = Vector(0, 0)
        mon.raises(ZeroDivisionError, raise_skip.unit, 'unit-zero')
    else:
        n = u.unit()
        mon.near(math.hypot(*n.xy()), 1.0, 'euclid', 'unit length', x, y)
        mon.near(fl(n), (x/ln, y/ln), 'euclid', 'unit direction', x, y)
        a = math.radians(u.angle())
        mon.near((ln*math.cos(a), ln*math.sin(a)), (x, y), 'euclid', 'angle', x, y, scale=ln)
        mon.check(-180 <= u.angle() <= 180, 'angle-range', u.angle())
    d = gen.angle(rng)
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    r = u.rotate(d)
    mon.near(fl(r), (c*x - s*y, s*x + c*y), 'euclid', 'rotate', x, y, d, scale=ln)
    mon.near(r.length(), ln, 'euclid', 'rotate length', x, y, d, scale=ln)
    mon.near(fl(r.rotate(-d)), (x, y), 'euclid', 'rotate back', x, y, d, scale=ln)
    if ln > 1e-6:
        mon.near(u.normal().dot(u) / ln / ln, 0, 'euclid', 'normal perpendicular')
        mon.near(u.cross(u.normal()) / ln / ln, -1, 'euclid', 'normal is clockwise')
        mon.near(u.cross(u.rotate(90)) / ln / ln, 1, 'euclid', 'rotate is counter-clockwise')
    # rounding
    digits = rng.choice((0, 1, 2, 3, 4, 7, -1, -2, -3))
    if ln < 1e6:
        v = Vector(x, y)
        mon.check(tuple(round(v, digits).xy()) == (round(x, digits), round(y, digits)), 'round', x, y, digits)
        mon.check(tuple(v.round(digits).xy()) == (round(x, digits), round(y, digits)), 'round', x, y, digits)
        for p in (Point(x, y, 'n'), PointRelative(x, y, Point(0, 0), 'n'), PointCalc(PointRelative(x, y, Point(0, 0)), 1)):
            for got in (round(p, digits), p.round(digits)):
                mon.check(isinstance(got, Point) and tuple(got.xy()) == (round(x, digits), round(y, digits)), 'round',
                          type(p).__name__, x, y, digits, got)
                if type(p) is Point:
                    mon.check(got.name == p.name, 'round', 'name', got.name)
        t = u.round(digits)
        tol = 10.0**-digits * 1.01
        mon.check(isinstance(t, Vector) and abs(t.x-x) <= tol and abs(t.y-y) <= tol, 'round', 'relative', x, y, digits)
    v = Vector(x, y)
    v.setxy(3, 4)
    mon.check(tuple(v.xy()) == (3, 4) and v.length() == 5, 'set')
    v.set(u)
    mon.check(tuple(float(c) for c in v.xy()) == (x, y), 'set', x, y)
    if ln:
        mon.sig('metric', round(x, 9), round(y, 9), d)


def parse(rng, mon):
    n = rng.randint(0, 6)
    pts = [(gen.num(rng), gen.num(rng)) for _ in range(n)]
    spell = [rng.choice(('flat', 'pair', 'obj', 'rel')) for _ in pts]
    raw, exp, exp_obj = [], [], []
    for (x, y), s in zip(pts, spell):
        if s == 'flat':
            raw.extend((x, y))
            exp.append((x, y))
        elif s == 'pair':
            raw.append((x, y))
            exp.append((x, y))
        else:
            o = Point(x, y) if s == 'obj' else PointRelative(x, y, Point(0, 0))
            raw.append(o)
            exp.append(o)
    copy = list(raw)
    src = rng.choice((list, tuple, iter))
    got = BasePoint.parse(src(raw))
    mon.check(len(got) == len(exp) and all(g is e if isinstance(e, BasePoint) else g == e for g, e in zip(got, exp)),
              'parse', spell, raw, got)
    mon.check([tuple(g) for g in got] == [tuple(e) for e in exp], 'parse', 'values', raw, got)
    mon.check(raw == copy, 'parse-pure')
    got = BasePoint.parse(raw, allow_thruples=True)
    mon.check([tuple(g) for g in got] == [tuple(e) for e in exp], 'parse', 'thruples', raw, got)
    i = rng.randint(0, n)
    # insert at an item boundary of the raw list
    cut = sum(2 if s == 'flat' else 1 for s in spell[:i])
    three = (1, 2, rng.choice(('x', 3, None)))
    got = BasePoint.parse(raw[:cut] + [three] + raw[cut:], allow_thruples=True)
    mon.check(len(got) == n + 1 and got[i] == three, 'parse', 'three', got)
    bad = {
        'three': three, 'one': (1,), 'empty': (), 'four': (1, 2, 3, 4), 'str': 'a', 'none': None, 'list': [1, 2],
        'dict': {1: 2}, 'vector': Vector(1, 2), 'lonely': 5,
    }
    for key in rng.sample(sorted(bad), 4):
        val = bad[key]
        tail = [(1, 2)] if key == 'lonely' and cut < len(raw) else raw[cut:]
        if key == 'lonely':
            tail = rng.choice(([], [(1, 2)], [Point(1, 2)], ['x']))
        mon.raises(ValueError, lambda: BasePoint.parse(raw[:cut] + [val] + tail), 'parse-refused', key, raw, cut)
        if key != 'three':
            mon.raises(ValueError, lambda: BasePoint.parse(raw[:cut] + [val] + tail, allow_thruples=True), 'parse-refused',
                       key, raw, cut, 'thruples')
    if n:
        mon.sig('parse', spell, [round(v, 6) for p in pts for v in p])
        mon.sample('parse', raw)


KINDS = [(algebra, 10000, 60000), (metric, 8000, 40000), (parse, 4000, 20000)]
_ = ref
