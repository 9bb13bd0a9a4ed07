"""C14: bounding boxes enclose everything that is drawn."""
from x7.geom.geom import BBox, Point, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.transform import Transform
from x7.geom.model import (ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemP1P2, Group, ElemWithHoles,
                           GeomInternalError)
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: every drawn point checked against the reported box; boxes recomputed independently'
RULE = ('elements and nested models with arbitrary own transforms (degenerate sizes, 0-6 holes, hidden groups) are drawn and every '
        'outline point must lie in the reported box; boxes are recomputed independently, also after in-place edits. '
        'Non-trivial: own transform is not the identity or the element is a container; distinct by state.')
ASSUMPTIONS = ['empty groups have no box (GeomInternalError)', 'only box shapes can be resized through bbox_int_update',
               'tolerance 1e-9 of the coordinates involved']
REQUIRED = {'encloses': 20000, 'box': 2500, 'center': 2400, 'update': 600, 'after-edit': 900, 'refused': 200}


def box_of(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def corners(b):
    return [(b[0], b[1]), (b[0], b[3]), (b[2], b[1]), (b[2], b[3])]


def ref_box(e):
    """Independent bounding box of an element"""
    if isinstance(e, Group):
        inner = box_of([c for m in e.elems.values() for c in corners(ref_box(m))])
    elif isinstance(e, ElemWithHoles):
        inner = ref_box(e.outside)
    elif isinstance(e, ElemCurve):
        inner = box_of([q for cp in e.control_points for c, dl, dr in [gen.cp_tuple(cp)]
                        for q in (c, (c[0]+dl[0], c[1]+dl[1]), (c[0]+dr[0], c[1]+dr[1]))])
    else:
        inner = box_of([e.p1.xy(), e.p2.xy()])
    a = gen.aff_of(e.xform)
    return box_of([ref.aff(a, c) for c in corners(inner)])


def subject(rng):
    k = rng.random()
    if k < 0.45:
        return gen.elem(rng)
    if k < 0.6:
        return gen.holed(rng)
    return gen.group(rng, depth=rng.randint(0, 3), hidden=True)


def judge(mon, e, name=None):
    bb = e.bbox()
    b = bb.as_tuple()
    want = ref_box(e)
    s = max(1.0, *(abs(v) for v in want))
    mon.near(b, want, 'box', e, rel=1e-9, scale=s)
    if name:
        mon.near(b, want, name, e, scale=s)
    mon.near(e.center().xy(), ((want[0]+want[2])/2, (want[1]+want[3])/2), 'center', e, scale=s)
    if name and any(isinstance(x, ElemWithHoles) for x in containers(e)):
        return b        # an edit may have moved holes out of their outside: no longer a holed element
    tol = 1e-9*s
    for pts in snap.outline_pts(e, ppc=9):
        for x, y in pts:
            mon.check(want and b[0]-tol <= x <= b[2]+tol and b[1]-tol <= y <= b[3]+tol, 'encloses', (x, y), b, e)
    return b


def tight(mon, e):
    """Rectangles always, ellipses with axis-parallel maps: the box touches the drawn outline on all sides"""
    (pts,) = snap.outline_pts(e, ppc=20)
    b = e.bbox().as_tuple()
    mon.near(b, box_of(pts), 'tight', e, rel=1e-9, scale=max(1.0, *(abs(v) for v in b)))


def boxes(rng, mon):
    e = subject(rng)
    before = snap.snap(e)
    judge(mon, e)
    if isinstance(e, ElemRectangle) or isinstance(e, (ElemEllipse, ElemRectangleRounded)):
        if not isinstance(e, ElemRectangle):
            e.xform = gen.transform(rng, 'simple')
        tight(mon, e)
        judge(mon, e)
    else:
        mon.check(snap.snap(e) == before, 'kept')
    if isinstance(e, (Group, ElemWithHoles)) or gen.aff_of(e.xform) != ref.IDENT:
        mon.sig(before)
        mon.sample(repr(e)[:300], e.bbox())


def leaves(e):
    if isinstance(e, Group):
        return [x for v in e.elems.values() for x in leaves(v)]
    if isinstance(e, ElemWithHoles):
        return leaves(e.outside) + [x for v in e.inside for x in leaves(v)]
    return [e]


def containers(e):
    out = [e]
    if isinstance(e, Group):
        out += [x for v in e.elems.values() for x in containers(v)]
    elif isinstance(e, ElemWithHoles):
        out += [e.outside] + list(e.inside)
    return out


def edit(rng, e):
    k = rng.random()
    if k < 0.4:
        x = rng.choice(containers(e))
        if rng.random() < 0.5:
            x.xform = gen.transform(rng)
        else:
            x.xform.rotate(gen.angle(rng)).translate(gen.coord(rng), gen.coord(rng))
    elif k < 0.9:
        x = rng.choice(leaves(e))
        if isinstance(x, ElemCurve):
            cp = rng.choice(x.control_points)
            j = rng.randrange(4)
            if j == 0:
                cp.c.set(gen.pt(rng))
            elif j == 1:
                cp.dl = gen.vec(rng)
            elif j == 2:
                cp.dr = gen.vec(rng)
            else:
                x.control_points.append(gen.control_point(rng))
        else:
            rng.choice((x.p1, x.p2)).set(gen.pt(rng))
    else:
        gs = [x for x in containers(e) if isinstance(x, Group)]
        if gs:
            g = rng.choice(gs)
            g.add('new member', gen.elem(rng), True)


def history(rng, mon):
    e = subject(rng)
    judge(mon, e)
    for _ in range(rng.randint(1, 6)):
        edit(rng, e)
        judge(mon, e, 'after-edit')
    mon.sig('hist', snap.snap(e))


def update(rng, mon):
    kind = rng.choice(('rect', 'ellipse', 'rrect'))
    e = gen.elem(rng, kind, xform=Transform() if rng.random() < 0.5 else gen.transform(rng))
    for _ in range(rng.randint(1, 3)):
        c1, c2 = gen.pt(rng), gen.pt(rng)
        want = BBox(c1, c2)
        w = want.as_tuple()
        keep = (e.name, e.penbrush, e.closed, gen.aff_of(e.xform), getattr(e, 'radius', None))
        e.bbox_int_update(want)
        mon.near(e.bbox_int().as_tuple(), w, 'update', kind)
        mon.check(want.as_tuple() == w, 'kept', 'requested box')
        a = gen.aff_of(e.xform)
        mon.near(e.bbox().as_tuple(), box_of([ref.aff(a, c) for c in corners(w)]), 'update', 'outer', scale=500)
        mon.check(keep == (e.name, e.penbrush, e.closed, gen.aff_of(e.xform), getattr(e, 'radius', None)), 'kept', 'rest')
        judge(mon, e)
        # the element does not follow the box or its corners afterwards
        want.grow(Point(500, 500))
        c1.set(Point(300, 300))
        mon.near(e.bbox_int().as_tuple(), w, 'update', 'detached', kind)
    for other in (gen.elem(rng, 'curve'), gen.holed(rng), gen.group(rng, depth=0)):
        before = snap.snap(other)
        mon.raises(ValueError, lambda other=other: other.bbox_int_update(BBox(0, 0, 1, 1)), 'refused', type(other).__name__)
        mon.check(snap.snap(other) == before, 'refused', 'unchanged')
    mon.sig('upd', snap.snap(e))


def degenerate(rng, mon):
    p = gen.pt(rng)
    q = rng.choice((Point(p.x, p.y), Point(p.x, gen.coord(rng)), Point(gen.coord(rng), p.y)))
    pb, xf = gen.penbrush(rng), gen.transform(rng)
    cls = rng.choice((ElemRectangle, ElemEllipse))
    e = cls('d', pb, p, q, xform=xf)
    judge(mon, e)
    c = ElemCurve('c', gen.penbrush(rng, False), gen.cps(rng, 1), closed=False, xform=xf.copy())
    want = ref_box(c)
    mon.near(c.bbox().as_tuple(), want, 'box', 'single', scale=1000)
    g = Group('g', gen.penbrush(rng, False), xform=gen.transform(rng))
    mon.raises(GeomInternalError, g.bbox, 'empty')
    g.add('d', e)
    judge(mon, g)
    # members without area, in any place of the group
    for i in range(rng.randint(1, 3)):
        p = gen.pt(rng)
        q = rng.choice((Point(p.x, gen.coord(rng)), Point(gen.coord(rng), p.y), gen.pt(rng)))
        xf = Transform().translate(gen.coord(rng), 0) if rng.random() < 0.6 else gen.transform(rng)
        if rng.random() < 0.5:
            m = ElemCurve('m%d' % i, gen.penbrush(rng, False), [gen.control_point(rng)] if rng.random() < 0.2 else
                          [ControlPoint(v, Vector(), Vector()) for v in (p, q)], closed=False, xform=xf)
        else:
            m = cls('m%d' % i, pb, p, q, xform=xf)
        g.add(m.name, m)
        items = list(g.elems.items())
        rng.shuffle(items)
        g.elems.clear()
        g.elems.update(items)
        judge(mon, g)
    # a control point's own box
    cp = gen.control_point(rng)
    (x, y), (lx, ly), (rx, ry) = gen.cp_tuple(cp)
    mon.near(cp.bbox().as_tuple(), box_of([(x, y), (x+lx, y+ly), (x+rx, y+ry)]), 'cp-box', cp)
    # adding holes does not change a holed element's box
    h = gen.holed(rng, holes=3)
    full = h.bbox().as_tuple()
    while h.inside:
        h.inside.pop()
        mon.near(h.bbox().as_tuple(), full, 'hole-count', len(h.inside))
    assert isinstance(e, ElemP1P2) and Vector


KINDS = [(boxes, 3600, 30000), (history, 2100, 15000), (update, 1500, 10000), (degenerate, 900, 5000)]
