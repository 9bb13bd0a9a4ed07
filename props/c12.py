"""C12: transforming an element transforms exactly what it draws."""
from x7.geom.geom import BasePoint, BBox, Point, Vector
from x7.geom.transform import Transform
from x7.geom.colors import PensByShape
from x7.geom.bezier import ControlPoint
from x7.geom.model import (ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemP1P2, Group, ElemWithHoles,
                           GroupBuilder)
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: metamorphic oracle draw(e.transform(m), d) == draw(e, d*m) against reference-mapped outlines'
RULE = ('every element kind with random own transform, groups nested three deep and holed elements, under random affine maps; '
        'outline and control points of the transformed element are compared with the reference image of the original ones, '
        'in model space and through a second drawing transform. Non-trivial: the map is not the identity; distinct by '
        'element state and map.')
ASSUMPTIONS = ['a closed box shape may start its outline at another corner or run the other way',
               'rounded rectangles: similarity maps (non-uniform axis scaling has no rounded-rectangle image)',
               'bounding boxes are compared for axis-parallel maps (under others a box of a box is not tight)',
               'tolerance 1e-8 of the coordinates involved']
REQUIRED = {'outline': 1000, 'through-context': 2000, 'control-points': 1000, 'composition': 2500, 'identity': 900,
            'style': 3400, 'bbox': 240, 'untouched': 2100, 'rotate-about': 300}


def size(*ptss):
    return max([1.0] + [abs(v) for pts in ptss for p in pts for v in p])


def near_pts(a, b, tol):
    return len(a) == len(b) and all(abs(p[0]-q[0]) <= tol and abs(p[1]-q[1]) <= tol for p, q in zip(a, b))


def same_outline(got, want, loose, rel=1e-8):
    """The same list of points; if loose, the same closed polygon from any start and in either direction"""
    tol = rel*size(want, got)
    if near_pts(got, want, tol):
        return True
    if not loose or len(got) != len(want):
        return False
    g, w = got[:-1], want[:-1]
    if not near_pts(got[-1:], got[:1], tol):
        return False
    for cand in (w, w[::-1]):
        for i in range(len(cand)):
            if near_pts(g, cand[i:] + cand[:i], tol):
                return True
    return False


def same_points(got, want, rel=1e-8):
    """The same set of points (each within tolerance of one of the other)"""
    tol = rel*size(want, got)
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        m = [w for w in left if abs(g[0]-w[0]) <= tol and abs(g[1]-w[1]) <= tol]
        if not m:
            return False
        left.remove(m[0])
    return True


def leaves(e):
    if isinstance(e, Group):
        return [] if e.hidden else [x for v in e.elems.values() for x in leaves(v)]
    if isinstance(e, ElemWithHoles):
        return [e]
    return [e]


def is_loose(e):
    return not isinstance(e, ElemCurve)


def cpts(e, matrix=None):
    """One list of points per control path"""
    out = []
    for path in e.control_paths(snap.dc(matrix)):
        pts = []
        for p in path.points:
            if isinstance(p, ControlPoint):
                pts += [p.c.xy(), p.l.xy(), p.r.xy()]
            else:
                assert isinstance(p, BasePoint)
                pts.append(p.xy())
        out.append(pts)
    return out


def similar(a, rel=1e-6):
    n = ref.aff_norm(a)
    return abs(a[0]*a[1] + a[3]*a[4]) <= rel*n*n and abs(a[0]**2+a[3]**2 - a[1]**2-a[4]**2) <= rel*n*n


def subject(rng):
    """(element, kind of maps it may be transformed by)"""
    k = rng.random()
    if k < 0.2:
        return gen.elem(rng, 'curve'), 'any'
    if k < 0.32:
        return gen.elem(rng, 'rect'), 'any'
    if k < 0.44:
        return gen.elem(rng, 'ellipse'), 'any'
    if k < 0.58:
        return gen.elem(rng, 'rrect', xform=gen.transform(rng, 'similar')), 'similar'
    if k < 0.72:
        return gen.holed(rng), 'any'
    return gen.group(rng, depth=rng.randint(0, 3), hidden=True), 'any'


def check_same(mon, got, want, loose, name, *detail):
    mon.check(len(got) == len(want) and all(same_outline(g, w, loose) for g, w in zip(got, want)), name, got, want, *detail)


def law(mon, e, m, rng):
    a = gen.aff_of(m)
    before, mb = snap.snap(e), snap.snap(m)
    base = snap.outline(e)
    t = e.transform(m)
    mon.check(snap.snap(e) == before and snap.snap(m) == mb, 'untouched', e, a)
    # style
    mon.check(type(t) is type(e) and t.name == e.name and t.penbrush == e.penbrush and t.closed == e.closed, 'style', e, t)
    mon.check(t is not e and t.xform is not e.xform and t.xform is not m, 'style', 'shared', e)
    if isinstance(e, Group):
        mon.check(t.hidden == e.hidden and list(t.elems) == list(e.elems) and list(t.points) == list(e.points), 'style', 'group')
    loose = is_loose(e)
    # outline
    out = snap.outline(t)
    mon.check([(p, c) for p, c, _ in out] == [(p, c) for p, c, _ in base], 'style', 'paths', out, base)
    want = [[ref.aff(a, p) for p in pts] for _, _, pts in base]
    check_same(mon, [p for _, _, p in out], want, loose, 'outline', e, a)
    # drawn through another map
    d = gen.transform(rng)
    da = gen.aff_of(d)
    through = snap.outline_pts(t, d.copy())
    check_same(mon, through, [[ref.aff(da, p) for p in pts] for pts in want], loose, 'through-context', e, a, da)
    check_same(mon, through, snap.outline_pts(e, d.copy().compose(m)), loose, 'through-context', 'd*m', e, a, da)
    # control points
    cg, cw = cpts(t), [[ref.aff(a, p) for p in pts] for pts in cpts(e)]
    if loose:
        mon.check(len(cg) == len(cw) and all(same_points(g, w) for g, w in zip(cg, cw)), 'control-points', cg, cw, e, a)
    else:
        mon.check(len(cg) == len(cw) and all(near_pts(g, w, 1e-8*size(w)) for g, w in zip(cg, cw)), 'control-points', cg, cw)
        mon.check([cp.kind for cp in t.control_points] == [cp.kind for cp in e.control_points], 'style', 'kinds')
    mon.check(snap.snap(e) == before and snap.snap(m) == mb, 'untouched', e, a)
    return t


def shake(e):
    """Move every point and handle of an element in place"""
    if isinstance(e, Group):
        pass            # groups share their members with the original by design
    elif isinstance(e, ElemWithHoles):
        for v in [e.outside] + e.inside:
            shake(v)
    else:
        for p in [e.p1, e.p2] if isinstance(e, ElemP1P2) else [v for cp in e.control_points for v in (cp.c, cp.dl, cp.dr)]:
            if type(p) in (Point, Vector):
                p.setxy(p.x + 3, p.y - 5)
    e.xform.translate(1, 2)


def transform(rng, mon):
    e, kind = subject(rng)
    m1, m2 = gen.transform(rng, kind), gen.transform(rng, kind)
    for _ in range(rng.choice((0, 0, 1, 2))):     # a map in use, with things pushed on it
        m1.push()
    a1, a2 = gen.aff_of(m1), gen.aff_of(m2)
    t = law(mon, e, m1, rng)
    # twice
    loose = is_loose(e)
    tt = t.transform(m2)
    base = snap.outline_pts(e)
    both = ref.aff_mul(a2, a1)
    check_same(mon, snap.outline_pts(tt), [[ref.aff(both, p) for p in pts] for pts in base], loose, 'composition', e, a1, a2)
    check_same(mon, snap.outline_pts(e.transform(m1.copy().compose_outer(m2))), snap.outline_pts(tt), loose, 'composition',
               'one step', e, a1, a2)
    # there and back
    inv = Transform(ref.aff_inv(a1))
    back = t.transform(inv)
    mon.check(all(same_outline(g, w, loose, 1e-6) for g, w in zip(snap.outline_pts(back), base)), 'composition', 'inverse')
    # independence of the map and the original afterwards
    kept = snap.snap(e), snap.outline_pts(e), snap.outline_pts(t)
    shake(back)
    shake(tt)
    mon.check((snap.snap(e), snap.outline_pts(e), snap.outline_pts(t)) == kept, 'independent', 'results moved', type(e).__name__)
    if rng.random() < 0.5:
        shake(t)
        mon.check((snap.snap(e), snap.outline_pts(e)) == kept[:2], 'independent', 'result moved', type(e).__name__)
    state = snap.outline_pts(t)
    m1.rotate(33).translate(4, 5)
    e.xform.translate(10, 3).scale(2, 1)
    if isinstance(e, ElemP1P2):
        e.p1.set(Point(-7, 3))
    elif isinstance(e, ElemCurve):
        e.control_points[0].c.set(Point(99, 98))
    elif isinstance(e, ElemWithHoles):
        for part in [e.outside] + e.inside:
            part.xform.translate(3, -8)
            if isinstance(part, ElemP1P2):
                part.p1.set(Point(-7, 3))
            else:
                part.control_points[-1].dl.set(Vector(99, 98))
                part.control_points[0].c.set(Point(99, 98))
        e.inside.clear()
        e.name = 'other'
    mon.check(snap.outline_pts(t) == state, 'independent', type(e).__name__)
    if a1 != ref.IDENT:
        mon.sig(base, a1)
        mon.sample(repr(e)[:200], a1)


def identity(rng, mon):
    e, _ = subject(rng)
    t = e.transform(Transform())
    loose = is_loose(e)
    check_same(mon, snap.outline_pts(t), snap.outline_pts(e), loose, 'identity', e)
    mon.check(type(t) is type(e) and (t.name, t.penbrush, t.closed) == (e.name, e.penbrush, e.closed), 'identity', 'style', e)
    cg, cw = cpts(t), cpts(e)
    mon.check(len(cg) == len(cw) and all(same_points(g, w) for g, w in zip(cg, cw)), 'identity', 'control points', e)
    mon.sig('id', snap.snap(e))


def bbox(rng, mon):
    e, kind = subject(rng)
    if isinstance(e, ElemCurve):
        e.xform = gen.transform(rng, 'simple')
    if kind == 'similar':
        s = rng.choice((1, -1, 2, 0.5))
        m = Transform().scale(s, rng.choice((s, -s))).translate(gen.coord(rng), gen.coord(rng))
    else:
        m = Transform().scale(gen.scale_factor(rng), gen.scale_factor(rng)).translate(gen.coord(rng), gen.coord(rng))
    a = gen.aff_of(m)
    bb = e.bbox().as_tuple()
    p, q = ref.aff(a, bb[:2]), ref.aff(a, bb[2:])
    want = (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
    mon.near(e.transform(m).bbox().as_tuple(), want, 'bbox', e, a, rel=1e-8, scale=size([p, q]))
    if isinstance(e, ElemP1P2) and not isinstance(e, ElemRectangleRounded):
        # boxes of box shapes follow any map of their corners
        m = gen.transform(rng)
        a = ref.aff_mul(gen.aff_of(m), gen.aff_of(e.xform))
        cs = [ref.aff(a, p.xy()) for p in e.points()]
        want = (min(c[0] for c in cs), min(c[1] for c in cs), max(c[0] for c in cs), max(c[1] for c in cs))
        mon.near(e.transform(m).bbox().as_tuple(), want, 'bbox', 'corners', e, rel=1e-8, scale=size(cs))
    mon.sig('bbox', snap.snap(e), a)


def rotate_about(rng, mon):
    e, kind = subject(rng)
    b = GroupBuilder('b', PensByShape())
    b.add('it', e)
    before = snap.snap(e)
    base = snap.outline_pts(e)
    ang, show, extra = gen.angle(rng), rng.random() < 0.3, rng.choice(('', '', '1', 'x'))
    bb = e.bbox()
    c = ((bb.xl+bb.xh)/2, (bb.yl+bb.yh)/2)
    kw = {'extra': extra} if extra else {}
    new = b.rotate_about_center(e, ang, show, **kw) if show else b.rotate_about_center(e, ang, **kw)
    a = ref.about(ref.mat_cw(ang), c)
    check_same(mon, snap.outline_pts(new), [[ref.aff(a, p) for p in pts] for pts in base], is_loose(e), 'rotate-about', e, ang)
    mon.check(b.lookup('it') is e and snap.snap(e) == before, 'untouched', 'rotate_about_center')
    mon.check(new in list(b.the_group.elems.values()) and type(new) is type(e), 'rotate-about', 'added')
    names = list(b.the_group.elems)
    mon.check(names == ['it', 'it_r'+extra] + (['it_c'+extra] if show else []), 'rotate-about', 'names', names)
    if show:
        mark = b.lookup('it_c'+extra)
        mon.check(isinstance(mark, ElemEllipse), 'rotate-about', 'marker')
        mon.near(mark.bbox().as_tuple(), (c[0]-1, c[1]-1, c[0]+1, c[1]+1), 'rotate-about', 'marker', scale=100 + abs(c[0]) + abs(c[1]))
        mon.check(mark.penbrush == e.penbrush, 'rotate-about', 'marker style', mark, e)
    mon.sig('rot', before, ang, show)
    assert isinstance(bb, BBox) and ElemRectangle


KINDS = [(transform, 7500, 40000), (identity, 2400, 20000), (bbox, 1500, 12000), (rotate_about, 1200, 5000)]
