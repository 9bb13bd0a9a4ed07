"""C25: offset curves keep the requested distance and side."""
import math

from x7.geom.geom import Point, PointRelative, Vector, VectorRelative
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint
from x7.geom.colors import PenBrush
from x7.geom.model import ElemCurve
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: offset curves measured against parallel lines, perpendicular displacements and areas in plain Python'
RULE = ('straight-sided polygons and smooth star-shaped outlines in both directions under random transforms (reflections too) '
        'offset by zero, small, large, positive and negative distances; single points offset between random adjoining directions '
        'including straight runs, cusps and needles. Distinct by outline and distance.')
ASSUMPTIONS = ['all handles have a length (points next to a zero handle are documented to stay)',
               'the handles of straight sides lie on the sides', 'distances are below the limit and corners are blunt enough for it',
               'smooth outlines are offset by less than their smallest radius of curvature']
REQUIRED = {'result': 2500, 'original': 1500, 'parallel': 12000, 'perpendicular': 5000, 'zero': 500, 'side': 2000, 'smooth': 4000,
            'smooth-handles': 2500, 'odd': 1500, 'limit': 1500, 'limited': 100, 'distance': 2500, 'stay': 300}

LIMIT = 100


def polygon(rng):
    """Straight sided closed curve (ccw), handles along the sides"""
    corners = [cp.c.xy() for cp in gen.poly_cps(rng, n=gen.some(rng, 3, 8, 14), r=rng.uniform(25, 45), center=gen.xy(rng))]
    n = len(corners)
    cps = []
    for i, p in enumerate(corners):
        a, b = corners[i-1], corners[(i+1) % n]
        fa, fb = rng.choice((1/3, 1/3, rng.uniform(0.1, 0.45))), rng.choice((1/3, rng.uniform(0.1, 0.45)))
        cps.append(ControlPoint(Point(*p), Vector((a[0]-p[0])*fa, (a[1]-p[1])*fa), Vector((b[0]-p[0])*fb, (b[1]-p[1])*fb),
                                rng.choice(gen.KINDS)))
    if rng.random() < 0.3:      # a straight run in the middle of a side
        i = rng.randrange(n)
        p, q = cps[i], cps[(i+1) % n]
        m = p.c.mid(q.c)
        v = (q.c - p.c)*0.2
        p.dr, q.dl = (q.c - p.c)*0.2, (p.c - q.c)*0.2
        cps.insert(i+1, ControlPoint(m, -v, v, 'very-smooth'))
    return cps


def finish(rng, cps, xform=None):
    if rng.random() < 0.5:
        cps = ControlPoint.reverse_list(cps)
        cps = [cp.copy() for cp in cps]
    k = rng.randrange(len(cps))
    cps = cps[k:] + cps[:k]
    pb = gen.penbrush(rng)
    return ElemCurve(gen.name(rng), pb, cps, closed=True, xform=xform or Transform())


def somewhere(rng, kind='any'):
    """A transform, sometimes down to a tiny size"""
    t = gen.transform(rng, kind)
    if rng.random() < 0.25:
        f = 10.0**-rng.uniform(1.5, 5)
        t = Transform().scale(f, f).compose(t)
    return t


def placed(e):
    """Reference control points of a curve after its transform"""
    m = gen.aff_of(e.xform)
    return [(ref.aff(m, c), ref.aff_vec(m, dl), ref.aff_vec(m, dr)) for c, dl, dr in (gen.cp_tuple(cp) for cp in e.control_points)]


def area(cps):
    return ref.shoelace([p for s in ref.segs_of(cps, True) for p in (s[0], s[1], s[2])])


def left_area(cps):
    """The outline counter-clockwise"""
    if area(cps) < 0:
        return [(c, dr, dl) for c, dl, dr in reversed(cps)], True
    return cps, False


def unit(v):
    d = math.hypot(*v)
    return v[0]/d, v[1]/d


def sub(p, q):
    return p[0]-q[0], p[1]-q[1]


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1]


def left(v):
    return -v[1], v[0]


def aligned(mon, got, want, key, name):
    """Rotate got so that it corresponds to want (same cyclic order); None if it does not"""
    n = len(want)
    best = min(range(n), key=lambda k: sum(math.hypot(*sub(got[(i+k) % n][0], want[i])) for i in range(n)))
    return [got[(i+best) % n] for i in range(n)], best


def common(rng, mon, e, d):
    before = snap.snap(e)
    out = e.offset(d)
    mon.check(snap.snap(e) == before, 'original', e)
    mon.check(type(out) is ElemCurve and out.closed is True, 'result', out)
    mon.check(len(out.control_points) == len(e.control_points), 'result', len(out.control_points))
    mon.check(out.penbrush == e.penbrush, 'result', out.penbrush)
    mon.check(out.name != e.name and e.name in out.name, 'result', out.name)
    mon.near(gen.aff_of(out.xform), ref.IDENT, 'result', 'xform')
    mon.check(sorted(cp.kind for cp in out.control_points) == sorted(cp.kind for cp in e.control_points), 'result', 'kinds')
    # independent of the original
    was = snap.snap(out)
    twin = e.copy()
    res = twin.offset(d)
    for cp in twin.control_points:
        cp.c.setxy(1, 2)
        cp.dl.setxy(3, 4)
        cp.dr.setxy(3, 5)
    twin.xform.translate(5, 5)
    mon.check(snap.snap(res) == was, 'result', 'independent')
    return out


def flip(cps, kinds):
    ccw, flipped = left_area(cps)
    return ccw, list(reversed(kinds)) if flipped else list(kinds)


def straight(rng, mon):
    cps = polygon(rng)
    xform = somewhere(rng) if rng.random() < 0.6 else None
    e = finish(rng, cps, xform)
    base, kinds = flip(placed(e), [cp.kind for cp in e.control_points])
    n = len(base)
    lens = [math.hypot(*sub(base[i][0], base[i-1][0])) for i in range(n)]
    top = max(math.hypot(*c) for c, _, _ in base) + 10
    d = rng.choice((1, 2, 5, 0.25, rng.uniform(0.1, 8))) * rng.choice((1, -1)) * min(1.0, min(lens)/10)
    # corners must not exceed the limit
    wants = []
    for c, dl, dr in base:
        u, v = unit(dl), unit(dr)
        cr = u[0]*v[1] - u[1]*v[0]
        if abs(cr) < 1e-7:
            wants.append((c[0] + d*left(v)[0], c[1] + d*left(v)[1]))
            continue
        h = unit((u[0]+v[0], u[1]+v[1]))
        s = abs(h[0]*v[1] - h[1]*v[0])
        if abs(d)/s > 0.9*LIMIT or abs(cr) < 1e-4:
            return
        # the displacement with component d along both left normals
        k = d/dot(h, left(v))
        wants.append((c[0] + k*h[0], c[1] + k*h[1]))
    out = common(rng, mon, e, d)
    got = [gen.cp_tuple(cp) for cp in out.control_points]
    gkinds = [cp.kind for cp in out.control_points]
    got, k = aligned(mon, got, wants, None, None)
    gkinds = gkinds[k:] + gkinds[:k]
    mon.check(gkinds == kinds, 'result', 'kinds in order', gkinds, kinds)
    for i in range(n):
        mon.near(got[i][0], wants[i], 'perpendicular', d, base[i], rel=1e-7, scale=top)
    # every side is parallel to the original at the distance
    for i in range(n):
        p, q = base[i][0], base[(i+1) % n][0]
        u = unit(sub(q, p))
        g = ref.segs_of([got[i], got[(i+1) % n]], False)[0]
        for t in (0, 0.25, 0.5, 0.8, 1):
            x = ref.cubic(g, t)
            mon.near(dot(sub(x, p), left(u)), d, 'parallel', i, t, rel=1e-6, scale=top)
    a0 = area(base)
    a1 = area(got)
    if abs(d)*20 < min(lens):
        mon.check((a1 < a0) == (d > 0), 'side', d, a0, a1)
    # opposite offsets lie on opposite sides of the original corners
    back = e.offset(-d)
    mirror, _ = aligned(mon, [gen.cp_tuple(cp) for cp in back.control_points], [sub((2*c[0], 2*c[1]), w) for (c, _, _), w in zip(base, wants)], None, None)
    for i in range(n):
        mon.near([(p+q)/2 for p, q in zip(got[i][0], mirror[i][0])], base[i][0], 'side', 'mirror', rel=1e-7, scale=top)
    mon.sig('straight', base, d)
    mon.sample(len(base), d, base[0])


def few(rng, mon):
    """Round outlines of two to four points, where most of the shape is in the handles; corners at some of them"""
    n = rng.choice((2, 2, 2, 3, 4))
    r = rng.uniform(25, 45)
    cx, cy = gen.xy(rng)
    step = 2*math.pi/n
    k = 4/3*math.tan(step/4)*r
    a0 = rng.uniform(0, 7)
    bend = rng.choice((0, 0, rng.uniform(-0.3, 0.3)))       # turns the handles into a corner
    size = rng.choice((1, rng.uniform(0.7, 1)))
    cps = []
    for i in range(n):
        a = a0 + i*step
        tx, ty = -math.sin(a), math.cos(a)
        inx, iny = -math.cos(a)*bend, -math.sin(a)*bend
        cps.append(ControlPoint(Point(cx + r*math.cos(a), cy + r*math.sin(a)), Vector((inx-tx)*k, (iny-ty)*k)*size,
                                Vector((inx+tx)*k, (iny+ty)*k)*size, rng.choice(gen.KINDS)))
    e = finish(rng, cps, somewhere(rng, 'similar') if rng.random() < 0.6 else None)
    base = placed(e)
    loop = dense(base, 40)
    a0 = ref.shoelace(loop)
    d = math.sqrt(abs(a0)/math.pi) * rng.uniform(0.01, 0.05)
    for s in (1, -1):
        out = common(rng, mon, e, s*d)
        a1 = ref.shoelace(dense([gen.cp_tuple(cp) for cp in out.control_points], 40))
        mon.check((abs(a1) < abs(a0)) == (s > 0), 'side', 'few', n, s*d, a0, a1)
        got = [gen.cp_tuple(cp)[0] for cp in out.control_points]
        for c, dl, dr in base:
            dist, p = min((math.hypot(*sub(g, c)), g) for g in got)
            mon.check(bool(ref.winding(p, loop)) == (s > 0), 'side', 'few', 'centre', n, s*d, c, p)
            if not bend:
                mon.near(dist, d, 'smooth', 'few', n, s*d, c, rel=1e-6, scale=d)
    mon.sig('few', base, d)


def stiff(rng, mon):
    """Control points without handles stay, with their kinds"""
    cps = polygon(rng)
    for cp in cps:
        k = rng.random()
        if k < 0.6:
            cp.dl = Vector(0, 0)
        if k < 0.4 or k > 0.8:
            cp.dr = Vector(0, 0)
    e = finish(rng, cps, somewhere(rng, 'similar') if rng.random() < 0.5 else None)
    base = placed(e)
    kinds = [cp.kind for cp in e.control_points]
    top = max(math.hypot(*c) for c, _, _ in base) + 50
    out = common(rng, mon, e, rng.choice((1, -1))*rng.uniform(0.01, 1))
    got = [(gen.cp_tuple(cp), cp.kind) for cp in out.control_points]
    for (c, dl, dr), kind in zip(base, kinds):
        if not any(dl) or not any(dr):
            near = [k for (g, _, _), k in got if math.hypot(*sub(g, c)) <= 1e-9*top]
            mon.check(kind in near, 'stay', 'in a curve', c, kind, got)
    mon.sig('stiff', base)


def nearest(p, pts):
    return ref.dist_polyline(p, pts, True)


def dense(cps, k=60):
    return [ref.cubic(s, i/k) for s in ref.segs_of(cps, True) for i in range(k)]


def smooth(rng, mon):
    n = rng.randint(4, 8)
    r = rng.uniform(25, 45)
    cps = gen.blob(rng, n=n, r=r, center=gen.xy(rng), ccw=True)
    xform = somewhere(rng, 'similar') if rng.random() < 0.6 else None
    e = finish(rng, cps, xform)
    base, kinds = flip(placed(e), [cp.kind for cp in e.control_points])
    m = gen.aff_of(e.xform)
    size = math.sqrt(abs(ref.aff_det(m)))*r
    d = size * rng.uniform(0.01, 0.12) * rng.choice((1, -1))
    top = max(math.hypot(*c) for c, _, _ in base) + 10
    out = common(rng, mon, e, d)
    got = [gen.cp_tuple(cp) for cp in out.control_points]
    wants = []
    for c, dl, dr in base:
        v = unit(dr)
        wants.append((c[0] + d*left(v)[0], c[1] + d*left(v)[1]))
    got, k = aligned(mon, got, wants, None, None)
    gkinds = [cp.kind for cp in out.control_points]
    mon.check(gkinds[k:] + gkinds[:k] == kinds, 'result', 'kinds in order')
    for i in range(n):
        mon.near(got[i][0], wants[i], 'smooth', 'centre', d, rel=1e-6, scale=top)
        # the curve leaves in the same direction
        for h, g in ((base[i][1], got[i][1]), (base[i][2], got[i][2])):
            mon.near(math.hypot(*g) and dot(unit(h), unit(g)), 1, 'smooth-handles', d, h, g, rel=1e-6)
    outline = dense(base)
    c0 = sum(c[0] for c, _, _ in base)/n, sum(c[1] for c, _, _ in base)/n
    inside = 1 if d > 0 else 0
    for s in ref.segs_of(got, True):
        for t in (0.2, 0.5, 0.77):
            p = ref.cubic(s, t)
            dist = nearest(p, outline)
            mon.check(abs(dist-abs(d)) <= 0.35*abs(d) + 1e-3*size, 'smooth', 'distance', dist, d, t)
            mon.check(bool(ref.winding(p, outline)) == bool(inside), 'side', p, d, c0)
    mon.sig('smooth', base, d)


def zero(rng, mon):
    """No distance: the same curve"""
    e = finish(rng, polygon(rng) if rng.random() < 0.5 else gen.blob(rng), gen.transform(rng))
    base, kinds = flip(placed(e), [cp.kind for cp in e.control_points])
    top = max(math.hypot(*c) for c, _, _ in base) + 50
    out = common(rng, mon, e, rng.choice((0, 0.0)))
    got, k = aligned(mon, [gen.cp_tuple(cp) for cp in out.control_points], [c for c, _, _ in base], None, None)
    for g, b in zip(got, base):
        for p, q in zip(g, b):
            mon.near(p, q, 'zero', b, rel=1e-8, scale=top)
    mon.sig('zero', base)


def point(rng, mon):
    """A single point between two adjoining directions"""
    pt = gen.pt(rng) if rng.random() < 0.8 else PointRelative(2, 3, gen.pt(rng))
    a = math.radians(gen.angle(rng))
    la, lb = (rng.choice((1, 30, 1e-3, rng.uniform(0.1, 50))) for _ in 'ab')
    k = rng.random()
    turn = math.pi if k < 0.15 else (0 if k < 0.2 else (rng.uniform(0.002, 0.05) if k < 0.35 else rng.uniform(0.05, 2*math.pi-0.05)))
    if k >= 0.35 and abs(turn-math.pi) < 1e-4:
        return
    straight_run = k < 0.2
    dl = Vector(la*math.cos(a), la*math.sin(a))
    dr = Vector(lb*math.cos(a+turn), lb*math.sin(a+turn)) if not straight_run else dl * (lb/la * (-1 if k < 0.15 else 1))
    d = rng.choice((1, -1)) * rng.choice((1, 2.5, rng.uniform(0, 30), 50, 99))
    before = snap.snap((dl, pt, dr))
    p = ElemCurve.offset_pt(dl, pt, dr, d)
    q = ElemCurve.offset_pt(dl, pt, dr, -d)
    mon.check(snap.snap((dl, pt, dr)) == before, 'original', 'offset_pt')
    x = pt.xy()
    v, w = sub(p.xy(), x), sub(q.xy(), x)
    size = math.hypot(*v)
    mon.near(v, (-w[0], -w[1]), 'odd', dl, dr, d, rel=1e-8, scale=200)
    mon.check(size <= LIMIT*(1+1e-9) + 1e-9, 'limit', size)
    mon.check(size >= abs(d)*(1-1e-9) - 1e-9, 'limit', 'short', size, d)
    into, out = unit(dl.xy()), unit(dr.xy())
    back = -into[0], -into[1]       # travelling towards the point
    if straight_run:
        mon.near(dot(v, left(back)), d, 'distance', 'straight', dl, dr, d, rel=1e-7, scale=100)
        mon.near(dot(v, back), 0, 'distance', 'straight', dl, dr, d, rel=1e-7, scale=100)
    else:
        h = unit((into[0]+out[0], into[1]+out[1])) if abs(turn-math.pi) > 1e-9 else left(out)
        full = abs(d)/abs(dot(h, left(out)))
        if full < LIMIT*(1-1e-6):
            mon.near(dot(v, left(back)), d, 'distance', dl, dr, d, rel=1e-6, scale=100)
            mon.near(dot(v, left(out)), d, 'distance', dl, dr, d, rel=1e-6, scale=100)
        elif full > LIMIT*(1+1e-6):
            # cut off, but in the same direction and on the same side
            mon.near(size, LIMIT, 'limited', dl, dr, d, rel=1e-7)
            mon.check(dot(v, left(out))*d > 0, 'limited', 'side', dl, dr, d, v)
            mon.near(abs(dot(unit(v), h)), 1, 'limited', 'direction', rel=1e-6)
    # zero directions: the point stays
    z = ElemCurve.offset_pt(Vector(0, 0), pt, dr, d), ElemCurve.offset_pt(dl, pt, Vector(0, 0), d)
    for s in z:
        mon.near(s.xy(), x, 'stay', scale=100)
    # the lengths of the directions do not matter
    f = rng.uniform(0.2, 5)
    mon.near(ElemCurve.offset_pt(dl*f, pt, dr, d).xy(), p.xy(), 'distance', 'scaled', dl, dr, d, rel=1e-6, scale=300)
    mon.sig('point', dl.xy(), dr.xy(), x, d)


KINDS = [(straight, 9000, 40000), (smooth, 4500, 18000), (few, 4500, 18000), (stiff, 2100, 8400), (zero, 2100, 8400), (point, 15000, 80000)]
