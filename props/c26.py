"""C26: canonical shapes have their defining geometry."""
import math

from x7.geom.geom import Point, PointRelative, Vector, BBox
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.model import (ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, GroupBuilder, make_rounded_rect_cps,
                           make_ellipse_cps, make_ellipse_p1p2_cps)
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: points of drawn outlines and control points measured against the analytic shapes'
RULE = ('rectangles, ellipses and rounded rectangles with every corner order, integer, fractional, thin and huge sides, radii from '
        'zero to oversized (exactly half a side included), drawn through invertible transforms, converted to curves and built '
        'through builders; every outline point is measured against the analytic shape. Distinct by box and radius.')
ASSUMPTIONS = ['both sides of a rounded rectangle have a length', 'radii are not negative']
REQUIRED = {'ellipse-on': 5000, 'ellipse-turn': 1500, 'ellipse-axes': 2000, 'rect-corners': 1500, 'rect-outline': 1500,
            'round-on': 8000, 'round-cover': 6000, 'round-sides': 3000, 'round-distinct': 1500, 'smooth': 6000, 'swapped': 1500,
            'same-area': 1500, 'circle': 1000, 'flat': 1500}

ACC = 3.0e-4


def box(rng):
    xl, yl = gen.xy(rng)
    if rng.random() < 0.12:
        # large
        s = 10**rng.uniform(2, 5)
        return xl, yl, xl + s*rng.uniform(0.3, 1), yl + s*rng.uniform(0.3, 1)
    w, h = (rng.choice((1, 10, 20.0, rng.uniform(0.5, 80), rng.uniform(0.5, 80), rng.randint(1, 60), 0.01, 1000)) for _ in 'wh')
    return xl, yl, xl + w, yl + h


def corner_orders(b):
    xl, yl, xh, yh = b
    return [((xl, yl), (xh, yh)), ((xh, yh), (xl, yl)), ((xl, yh), (xh, yl)), ((xh, yl), (xl, yh))]


def points_of(rng, order):
    p1, p2 = Point(*order[0]), Point(*order[1])
    if rng.random() < 0.1:
        p2 = PointRelative(p2.x-p1.x, p2.y-p1.y, p1)
    return p1, p2


def drawn(rng, e, ppc):
    """Outline points back in the space of the shape, through a random matrix"""
    if rng.random() < 0.5:
        pts, = snap.outline_pts(e, ppc=ppc)
        return pts, 1.0
    t = gen.transform(rng)
    m = gen.aff_of(t)
    pts, = snap.outline_pts(e, t, ppc=ppc)
    inv = ref.aff_inv(m)
    # the outline is stored in single precision
    size = max(max(abs(v) for p in pts for v in p), 1)
    return [ref.aff(inv, p) for p in pts], size*max(1, ref.aff_norm(inv))


def curve_points(cps, k=8):
    cps = [gen.cp_tuple(cp) for cp in cps]
    return [ref.cubic(s, i/k) for s in ref.segs_of(cps, True) for i in range(k)]


def views(rng, e):
    """The same outline through several views of the element: (points, rounding slack)"""
    out = [(*drawn(rng, e, rng.choice((4, 8, 15))), 'paths')]
    out.append((curve_points(e.make_control_points()), 0, 'control points'))
    k = rng.random()
    if k < 0.3:
        out.append((curve_points(e.as_digi_points()), 0, 'digi points'))
    elif k < 0.6:
        c, = e.as_curves()
        out.append((curve_points(c.control_points), 0, 'curve'))
    else:
        cp, = e.control_paths(snap.dc())
        if not isinstance(e, ElemRectangle):
            out.append((curve_points(cp.points), 0, 'control paths'))
    return out


def make(rng, cls, p1, p2, *radius):
    pb = gen.penbrush(rng)
    if rng.random() < 0.3:
        b = GroupBuilder('g', PensByShape())
        if cls is ElemRectangle:
            return b.rect('r', p1, p2, pb)
        if cls is ElemEllipse:
            return b.ellipse('r', p1, p2, pb)
        return b.rrect('r', p1, p2, *radius, pb)
    return cls('r', pb, p1, p2, *radius)


def closes(mon, cps, name, scale):
    """Handles of every control point are opposite; the last one leads back to the first"""
    for cp in cps:
        a, b = cp.dl.xy(), cp.dr.xy()
        la, lb = math.hypot(*a), math.hypot(*b)
        if la > 1e-9*scale and lb > 1e-9*scale:
            mon.near((a[0]*b[0] + a[1]*b[1])/(la*lb), -1, 'smooth', name, cp, rel=1e-6)
        else:
            mon.count('smooth')


def turns(mon, pts, c, name):
    """Goes around the centre exactly once, always in the same direction"""
    total, signs = 0.0, set()
    for p, q in zip(pts, pts[1:] + pts[:1]):
        a, b = (p[0]-c[0], p[1]-c[1]), (q[0]-c[0], q[1]-c[1])
        cr = a[0]*b[1] - a[1]*b[0]
        d = math.atan2(cr, a[0]*b[0] + a[1]*b[1])
        if abs(d) > 1e-5:
            signs.add(d > 0)
        total += d
    mon.near(abs(total), 2*math.pi, name, total, rel=1e-3)
    mon.check(len(signs) == 1, name, 'direction')


def ellipse(rng, mon):
    b = box(rng)
    xl, yl, xh, yh = b
    cx, cy, rx, ry = (xl+xh)/2, (yl+yh)/2, (xh-xl)/2, (yh-yl)/2
    far = max(abs(v) for v in b)
    areas = []
    for order in rng.sample(corner_orders(b), 2):
        p1, p2 = points_of(rng, order)
        e = make(rng, ElemEllipse, p1, p2)
        before = snap.snap(e)
        for pts, slack, what in views(rng, e):
            single = slack*3e-7 + far*1e-12
            for x, y in pts:
                d = math.hypot((x-cx)/rx, (y-cy)/ry) - 1
                mon.check(abs(d) <= ACC + 1e-9 + single/min(rx, ry), 'ellipse-on', what, (x, y), d, b)
            if single < 1e-3*min(rx, ry):
                turns(mon, [((x-cx)/rx, (y-cy)/ry) for x, y in pts], (0, 0), 'ellipse-turn')
            areas.append(abs(ref.shoelace(pts)) if what == 'control points' else None)
        cps = e.make_control_points()
        closes(mon, [ControlPoint(Point(*cp.c.xy()), Vector(cp.dl.x/rx, cp.dl.y/ry), Vector(cp.dr.x/rx, cp.dr.y/ry))
                     for cp in cps], 'ellipse', 1)
        # the four ends of the axes are on it, exactly
        dense = curve_points(cps, 40)
        for a, v in ((0, xl), (1, yl)):
            mon.near(min(p[a] for p in dense), v, 'ellipse-axes', b, scale=far + 1, rel=1e-9)
        for a, v in ((0, xh), (1, yh)):
            mon.near(max(p[a] for p in dense), v, 'ellipse-axes', b, scale=far + 1, rel=1e-9)
        bb = e.bbox()
        mon.near(bb.as_tuple(), b, 'ellipse-axes', 'bbox', scale=far + 1)
        mon.check(snap.snap(e) == before, 'swapped', 'unchanged')
    areas = [a for a in areas if a]
    mon.near(areas, [areas[0]]*len(areas), 'same-area', rel=1e-9, scale=areas[0])
    # from a centre
    k = rng.random()
    cps = make_ellipse_cps(Point(cx, cy), rx, ry) if k < 0.4 else (make_ellipse_cps(Point(cx, cy), rx) if k < 0.8 else
                                                                  make_ellipse_p1p2_cps(Point(xl, yh), Point(xh, yl)))
    r2 = rx if 0.4 <= k < 0.8 else ry
    for x, y in curve_points(cps, 10):
        mon.check(abs(math.hypot((x-cx)/rx, (y-cy)/r2) - 1) <= ACC + far*1e-12/min(rx, r2), 'circle', (x, y), b)
    mon.sig('ellipse', b)


def flat(rng, mon):
    """Boxes without width or height: the outline is the segment between the corners"""
    xl, yl, xh, yh = box(rng)
    k = rng.random()
    b = (xl, yl, xh, yl) if k < 0.45 else ((xl, yl, xl, yh) if k < 0.9 else (xl, yl, xl, yl))
    far = max(abs(v) for v in b) + 1
    for cls in (ElemEllipse, ElemRectangle):
        for order in rng.sample(corner_orders(b), 2):
            e = make(rng, cls, *points_of(rng, order))
            pts = curve_points(e.make_control_points())
            mon.near((min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)), b,
                     'flat', cls.__name__, b, scale=far)
            mon.near(e.bbox().as_tuple(), b, 'flat', 'bbox', scale=far)
            line, = snap.outline_pts(e, ppc=6)
            for a in (0, 1):
                mon.near((min(p[a] for p in line), max(p[a] for p in line)), (b[a], b[a+2]), 'flat', 'drawn', cls.__name__, b,
                         scale=far, rel=1e-6)
    mon.sig('flat', b)


def same_set(mon, got, want, name, tol, *detail):
    ok = all(any(math.hypot(p[0]-q[0], p[1]-q[1]) <= tol for q in want) for p in got)
    ok = ok and all(any(math.hypot(p[0]-q[0], p[1]-q[1]) <= tol for q in got) for p in want)
    mon.check(ok, name, got, want, *detail)


def rectangle(rng, mon):
    b = box(rng)
    xl, yl, xh, yh = b
    far = max(abs(v) for v in b)
    want = [(xl, yl), (xh, yl), (xh, yh), (xl, yh)]
    for order in corner_orders(b):
        p1, p2 = points_of(rng, order)
        e = make(rng, ElemRectangle, p1, p2)
        before = snap.snap(e)
        pts, slack = drawn(rng, e, 8)
        tol = slack*3e-7 + far*1e-9 + 1e-9
        same_set(mon, pts, want, 'rect-outline', tol, order)
        mon.check(math.hypot(pts[0][0]-pts[-1][0], pts[0][1]-pts[-1][1]) <= tol, 'rect-outline', 'closed', pts)
        if tol < 1e-3*min(xh-xl, yh-yl):
            area = (xh-xl)*(yh-yl)
            mon.near(abs(ref.shoelace(pts[:4])), area, 'rect-outline', 'goes around', rel=1e-2, scale=area)
        corners = [p.xy() for p in e.points()]
        same_set(mon, corners, want, 'rect-corners', 1e-9*(1+far), order)
        mon.check(len(corners) == 4 and abs(abs(ref.shoelace(corners)) - (xh-xl)*(yh-yl)) <= 1e-9*(1+far)*(xh-xl+yh-yl),
                  'rect-corners', 'order', corners)
        cps = e.make_control_points()
        mon.check(len(cps) == 4 and all(cp.dl.xy() == (0, 0) and cp.dr.xy() == (0, 0) for cp in cps), 'rect-corners', 'handles')
        same_set(mon, [cp.c.xy() for cp in cps], want, 'rect-corners', 1e-9*(1+far), order)
        t = gen.transform(rng)
        m = gen.aff_of(t)
        moved = [tuple(p.xy()) for p in e.points_transformed(t)]
        s = (1+far)*(1+max(abs(v) for v in m))
        same_set(mon, moved, [ref.aff(m, p) for p in want], 'rect-corners', 1e-9*s, order)
        mon.near(e.bbox().as_tuple(), b, 'swapped', 'bbox', scale=far + 1)
        mon.check(snap.snap(e) == before, 'swapped', 'unchanged')
    mon.sig('rect', b)


def round_outline(b, r):
    """The analytic outline: signed distance-like check of a point"""
    xl, yl, xh, yh = b

    def dist(p):
        x, y = p
        # inside the corner squares measure from the corner centre
        cx = xl + r if x < xl + r else (xh - r if x > xh - r else None)
        cy = yl + r if y < yl + r else (yh - r if y > yh - r else None)
        if cx is not None and cy is not None:
            return math.hypot(x-cx, y-cy) - r
        return max(xl-x, x-xh, yl-y, y-yh)
    return dist


def rounded(rng, mon):
    b = box(rng)
    xl, yl, xh, yh = b
    w, h = xh-xl, yh-yl
    far = max(abs(v) for v in b)
    radius = rng.choice((0, 0.0, min(w, h)/2, max(w, h)/2, 5.0, 1, 1e6, min(w, h)*rng.uniform(0.01, 0.49),
                         min(w, h)*rng.uniform(0.5, 0.7), (w+h)/3,
                         # just about half a side
                         rng.choice((w, h))*(0.5 + 10**rng.uniform(-7, -1.5)*rng.choice((1, -1)))))
    r = min(radius, w/2, h/2)
    dist = round_outline(b, r)
    areas = []
    for order in rng.sample(corner_orders(b), 2):
        p1, p2 = points_of(rng, order)
        e = make(rng, ElemRectangleRounded, p1, p2, radius)
        before = snap.snap(e)
        for pts, slack, what in views(rng, e):
            single = slack*3e-7 + far*1e-11
            if single > 0.01*min(w, h):
                continue
            for p in pts:
                d = dist(p)
                # outside the rectangle by nothing, off the outline by 0.03% of the radius
                mon.check(abs(d) <= ACC*r + single, 'round-on', what, p, d, b, radius)
                mon.check(xl-single <= p[0] <= xh+single and yl-single <= p[1] <= yh+single, 'round-sides', 'inside', p, b, radius)
            if what == 'control points':
                areas.append(abs(ref.shoelace(pts)))
            # the outline is covered: every analytic point has drawn points near
            line = curve_points(e.make_control_points(), 12) if what == 'control points' else pts
            step = 0.2*r + single*2
            for _ in range(6):
                k = rng.randrange(4)
                a = math.radians(rng.uniform(0, 90) + 90*k)
                cx = (xh-r, xl+r, xl+r, xh-r)[k]
                cy = (yh-r, yh-r, yl+r, yl+r)[k]
                q = cx + r*math.cos(a), cy + r*math.sin(a)
                mon.check(ref.dist_polyline(q, line, True) <= step, 'round-cover', what, q, b, radius)
            for q in ((xl, rng.uniform(yl+r, yh-r)), (xh, rng.uniform(yl+r, yh-r)), (rng.uniform(xl+r, xh-r), yl),
                      (rng.uniform(xl+r, xh-r), yh)):
                mon.check(ref.dist_polyline(q, line, True) <= single*2 + 1e-9, 'round-sides', what, q, b, radius)
        cps = e.make_control_points() if rng.random() < 0.5 else make_rounded_rect_cps(p1, p2, radius)
        cs = [cp.c.xy() for cp in cps]
        tiny = 1e-8
        ok = all(math.hypot(p[0]-q[0], p[1]-q[1]) > tiny for i, p in enumerate(cs) for q in cs[:i])
        mon.check(ok or r < 1e-7 or (0 < min(w, h)/2 - r < 1e-7), 'round-distinct', b, radius, cs)
        mon.check(4 <= len(cps) <= 8, 'round-distinct', len(cps), b, radius)
        if r > 0:
            closes(mon, cps, 'rounded', r)
        # touches the four sides
        for a, lo, hi in ((0, xl, xh), (1, yl, yh)):
            mon.near((min(c[a] for c in cs), max(c[a] for c in cs)), (lo, hi), 'round-sides', 'touch', scale=far + 1)
        mon.near(e.bbox().as_tuple(), b, 'swapped', 'bbox', scale=far + 1)
        mon.check(snap.snap(e) == before, 'swapped', 'unchanged')
    want = w*h - (4-math.pi)*r*r
    mon.near(areas, [want]*len(areas), 'same-area', b, radius, rel=0.02, scale=want)
    mon.near(areas, [areas[0]]*len(areas), 'same-area', b, radius, rel=1e-7, scale=want + far*far*1e-6)
    mon.sig('round', b, radius)
    mon.sample(b, radius)


KINDS = [(ellipse, 3600, 25000), (flat, 1200, 6000), (rectangle, 1800, 10000), (rounded, 6000, 40000)]
