"""Workload generators (all randomness comes from the rng handed in)."""
import math

from x7.geom.geom import Point, PointRelative, PointCalc, Vector, VectorRelative, BBox
from x7.geom.transform import Transform
from x7.geom.colors import Pen, Brush, PenBrush, TRANSPARENT
from x7.geom.bezier import ControlPoint
from x7.geom.model import (ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, Group, ElemWithHoles)
from . import ref


# -- numbers ---------------------------------------------------------------------------------------------------------
def num(rng, kind=None):
    kind = kind or rng.choice(('int', 'int', 'half', 'float', 'float', 'zero', 'small', 'big', 'neg0'))
    if kind == 'int':
        return rng.randint(-20, 20)
    if kind == 'half':
        return rng.randint(-40, 40) / 2
    if kind == 'float':
        return rng.uniform(-100, 100)
    if kind == 'zero':
        return rng.choice((0, 0.0))
    if kind == 'small':
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, -2)
    if kind == 'big':
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(3, 7)
    if kind == 'neg0':
        return -0.0
    raise KeyError(kind)


def some(rng, lo, hi, far=None, p=0.03):
    """How many: usually lo..hi, now and then far more"""
    return rng.randint(hi, far or 4*hi) if rng.random() < p else rng.randint(lo, hi)


def recent(rng, key):
    """Values of this sort handed out before in the same case"""
    return rng.__dict__.setdefault('_recent_' + key, [])


def scene(rng):
    """Size of everything in this case: mostly the usual drawing range, now and then tiny or huge"""
    s = rng.__dict__.get('_scene')
    if s is None:
        s = rng.__dict__['_scene'] = 1 if rng.random() < 0.93 else 10.0**rng.uniform(-3, 4)
    return s


def usual(rng):
    """Keep everything in this case in the usual drawing range"""
    rng.__dict__['_scene'] = 1


def coord(rng):
    """A coordinate in the usual drawing range; now and then one that was used before in the case, or its mirror image"""
    mem = recent(rng, 'coord')
    if mem and rng.random() < 0.1:
        return rng.choice(mem) * rng.choice((1, 1, -1))
    c = rng.choice((rng.randint(-60, 60), rng.uniform(-60, 60), rng.randint(-120, 120) / 2))
    if scene(rng) != 1:
        c *= scene(rng)
    mem.append(c)
    del mem[:-8]
    return c


def xy(rng):
    """A point; now and then one that was used before in the case, or its mirror image"""
    mem = recent(rng, 'xy')
    if mem and rng.random() < 0.06:
        x, y = rng.choice(mem)
        return rng.choice(((x, y), (x, y), (-x, -y), (-x, y), (x, -y), (y, x)))
    p = coord(rng), coord(rng)
    mem.append(p)
    del mem[:-6]
    return p


def pt(rng, name=None):
    return Point(*xy(rng), name) if name else Point(*xy(rng))


def vec(rng, size=40.0):
    mem = recent(rng, 'vec%d' % size)
    if mem and rng.random() < 0.08:
        x, y = rng.choice(mem)
        return rng.choice((Vector(x, y), Vector(-x, -y), Vector(-y, x), Vector(y, -x), Vector(x/2, y/2)))
    v = new_vec(rng, size)
    mem.append(v.xy())
    del mem[:-6]
    return v


def new_vec(rng, size):
    k = rng.random()
    if k >= 0.1 and scene(rng) != 1:
        size *= scene(rng)
        return Vector(rng.uniform(-size, size), rng.uniform(-size, size))
    if k < 0.1:
        return Vector(0, 0)
    if k < 0.4:
        n = max(1, int(size))
        return Vector(rng.randint(-n, n), rng.randint(-n, n))
    return Vector(rng.uniform(-size, size), rng.uniform(-size, size))


def angle(rng):
    return rng.choice((0, 90, 180, 270, -90, 45, 30, 360, rng.randint(-720, 720), rng.uniform(-360, 360)))


# -- transforms ------------------------------------------------------------------------------------------------------
def scale_factor(rng):
    s = rng.choice((1, 2, 0.5, rng.uniform(0.3, 3), rng.uniform(0.3, 3)))
    return -s if rng.random() < 0.25 else s


def op(rng):
    """A random invertible transform operation: (name, args)"""
    k = rng.choice(('translate', 'translate', 'scale', 'scale_u', 'rotate', 'rotate_ccw', 'rotate_about', 'compose',
                    'compose_outer'))
    if k == 'translate':
        return 'translate', (coord(rng), coord(rng))
    if k == 'scale':
        return 'scale', (scale_factor(rng), scale_factor(rng))
    if k == 'scale_u':
        s = scale_factor(rng)
        return 'scale', (s, s)
    if k in ('rotate', 'rotate_ccw'):
        return k, (angle(rng),)
    if k == 'rotate_about':
        return k, (angle(rng), xy(rng))
    # a 6-tuple to compose with
    return k, (mat6(rng),)


def mat6(rng, cond=20.0):
    """A random well conditioned 6-tuple"""
    while True:
        m = tuple(rng.uniform(-2, 2) for _ in range(6))
        m = (m[0], m[1], m[2]*20, m[3], m[4], m[5]*20)
        k = rng.random()
        if k < 0.2:
            m = (m[0], 0.0, m[2], 0.0, m[4], m[5])
        elif k < 0.3:
            m = (0.0, m[1], m[2], m[3], 0.0, m[5])
        elif k < 0.4:       # one-sided shears
            m = (m[0], 0.0, m[2], m[3], m[4], m[5]) if k < 0.35 else (m[0], m[1], m[2], 0.0, m[4], m[5])
        if abs(ref.aff_det(m)) > 0.1 and ref.aff_cond(m) < cond:
            return m


def ref_op(name, args):
    """Reference matrix of an operation and whether it is applied first ('inner') or last ('outer')"""
    if name == 'translate':
        return ref.mat_translate(*args), 'outer'
    if name == 'scale':
        return ref.mat_scale(*args), 'outer'
    if name == 'rotate':
        return ref.mat_cw(*args), 'outer'
    if name == 'rotate_ccw':
        return ref.mat_ccw(*args), 'outer'
    if name == 'rotate_about':
        return ref.about(ref.mat_cw(args[0]), args[1]), 'outer'
    if name == 'compose':
        return args[0], 'inner'
    if name == 'compose_outer':
        return args[0], 'outer'
    raise KeyError(name)


def real_op(t, name, args):
    if name == 'rotate_about':
        return t.rotate_about(args[0], Point(*args[1]))
    if name in ('compose', 'compose_outer'):
        return getattr(t, name)(Transform(args[0]))
    return getattr(t, name)(*args)


def aff_of(t):
    return tuple(float(v) for v in t.as_6tuple())


def transform(rng, kind='any'):
    """A random invertible, well conditioned Transform"""
    if kind == 'identity':
        return Transform()
    if kind == 'similar':       # rotation, translation, uniform scale, reflection
        s = rng.choice((1, rng.uniform(0.3, 3)))
        t = Transform().scale(s, s)
        if rng.random() < 0.3:
            t.scale(-1, 1)
        t.rotate(angle(rng)).translate(coord(rng), coord(rng))
        return t
    if kind == 'simple':        # translation, axis scales, 90 degree rotations
        t = Transform().scale(scale_factor(rng), scale_factor(rng))
        if rng.random() < 0.3:
            t.compose_outer(Transform((0, 1, 0, -1, 0, 0)))
        t.translate(coord(rng), coord(rng))
        return t
    k = rng.random()
    if k < 0.15:
        return Transform()
    if k < 0.35:
        return transform(rng, 'similar')
    if k < 0.5:
        return transform(rng, 'simple')
    if k < 0.75:
        return Transform(mat6(rng))
    while True:
        t = Transform()
        for _ in range(rng.randint(1, 4)):
            real_op(t, *op(rng))
        m = aff_of(t)
        if ref.aff_cond(m) < 100 and 0.02 < abs(ref.aff_det(m)) < 500:
            return t


# -- styles ----------------------------------------------------------------------------------------------------------
NAMES = ['black', 'white', 'red', 'green', 'blue', 'yellow', 'orange', 'grey', 'pink', 'cyan', 'tan']
RGBA = [(255, 0, 0, 255), (1, 2, 3, 255), TRANSPARENT, (10, 200, 30), (0, 128, 255, 128)]


def color(rng, opaque=False):
    if opaque:
        return rng.choice(NAMES)
    return rng.choice(NAMES) if rng.random() < 0.7 else rng.choice(RGBA)


def width(rng):
    return rng.choice((0, 0.0, 1, 2, 3.5, -1, -2, -0.5))


def penbrush(rng, filled=None):
    """A random pen-brush; filled True/False/None(random)"""
    if filled is None:
        filled = rng.random() < 0.5
    stroked = rng.random() < 0.8 or not filled
    pen = None
    if stroked:
        c = color(rng)
        k = rng.random()
        pen = Pen(c, width(rng)) if k < 0.5 or isinstance(c, tuple) else ((c, width(rng)) if k < 0.8 else c)
    brush = None
    if filled:
        c = color(rng)
        brush = Brush(c) if rng.random() < 0.5 else c
    return PenBrush(pen, brush)


# -- curves ----------------------------------------------------------------------------------------------------------
KINDS = ('smooth', 'very-smooth', 'sharp')


def control_point(rng, size=40.0, kind=None, center=None):
    """A control point whose handles obey its kind"""
    kind = kind or rng.choice(KINDS)
    c = center or Point(*xy(rng))
    v = vec(rng, size)
    if kind == 'very-smooth':
        return ControlPoint(c, v, -v, kind)
    if kind == 'smooth':
        return ControlPoint(c, v, v * -rng.choice((0, 0.5, 1, 2, rng.uniform(0.1, 3))), kind)
    return ControlPoint(c, v, vec(rng, size), kind)


def cps(rng, n=None, size=30.0):
    n = n or (rng.randint(2, 6) if rng.random() < 0.95 else rng.randint(7, 30))
    return [control_point(rng, size) for _ in range(n)]


def blob(rng, n=None, r=30.0, center=(0.0, 0.0), ccw=None):
    """Control points of a smooth, simple, star-shaped closed curve with no self intersection"""
    n = n or rng.randint(3, 7)
    ccw = rng.random() < 0.5 if ccw is None else ccw
    out = []
    base = rng.uniform(0, 360)
    h = 4/3 * math.tan(math.radians(360/n/4))
    for i in range(n):
        a = math.radians(base + 360*i/n + rng.uniform(-8, 8)) * (1 if ccw else -1)
        rad = r * rng.uniform(0.85, 1.15)
        c = Point(center[0] + rad*math.cos(a), center[1] + rad*math.sin(a))
        t = Vector(-math.sin(a), math.cos(a)) * (rad * h * rng.uniform(0.75, 1.0)) * (1 if ccw else -1)
        out.append(ControlPoint(c, -t, t, rng.choice(('smooth', 'very-smooth'))))
    return out


def poly_cps(rng, n=None, r=30.0, center=(0.0, 0.0), ccw=True):
    """Straight sided star-shaped polygon as sharp control points without handles"""
    n = n or rng.randint(3, 7)
    out = []
    base = rng.uniform(0, 360)
    for i in range(n):
        a = math.radians(base + 360*i/n + rng.uniform(-5, 5)) * (1 if ccw else -1)
        rad = r * rng.uniform(0.7, 1.3)
        out.append(ControlPoint(Point(center[0] + rad*math.cos(a), center[1] + rad*math.sin(a)),
                                Vector(), Vector(), 'sharp'))
    return out


def cp_tuple(cp):
    return (tuple(cp.c.xy()), tuple(cp.dl.xy()), tuple(cp.dr.xy()))


# -- elements --------------------------------------------------------------------------------------------------------
ELEM_NAMES = ['a', 'b', 'c', 'leg', "it's", 'q"q', 'back\\slash', 'ünï', 'arm 2', 'curve#1', '0', 'sub', 'x_y',
              'new\nline', 'tab\t', '{}', '%s', '#']


def name(rng, plain=False):
    return rng.choice(ELEM_NAMES[:4] if plain else ELEM_NAMES) + (str(rng.randint(0, 99)) if rng.random() < 0.5 else '')


def elem(rng, kind=None, nm=None, xform=None, pb=None, box=None):
    """A random leaf element"""
    kind = kind or rng.choice(('curve', 'curve', 'rect', 'rrect', 'ellipse'))
    nm = nm or name(rng)
    xform = transform(rng) if xform is None else xform
    pb = pb or penbrush(rng)
    if kind == 'curve':
        closed = pb.filled or rng.random() < 0.5
        return ElemCurve(nm, pb, cps(rng), closed=closed, xform=xform)
    if box is None:
        p1, p2 = pt(rng), pt(rng)
        while abs(p1.x - p2.x) < 0.5*min(1, scene(rng)) or abs(p1.y - p2.y) < 0.5*min(1, scene(rng)):
            p2 = pt(rng)
    else:
        p1, p2 = Point(*box[0]), Point(*box[1])
    if kind == 'rect':
        return ElemRectangle(nm, pb, p1, p2, xform=xform)
    if kind == 'ellipse':
        return ElemEllipse(nm, pb, p1, p2, xform=xform)
    if kind == 'rrect':
        w, h = abs(p1.x-p2.x), abs(p1.y-p2.y)
        radius = rng.choice((0, 1, 5.0, min(w, h)/2, max(w, h)/2, 1000, rng.uniform(0, min(w, h)/2)))
        return ElemRectangleRounded(nm, pb, p1, p2, radius, xform=xform)
    raise KeyError(kind)


def holed(rng, nm=None, xform=None, holes=None, pb=None, outer_kind=None):
    """Element with holes; the holes lie strictly inside the outside"""
    pb = pb or penbrush(rng)
    nm = nm or name(rng)
    xform = transform(rng) if xform is None else xform
    k = outer_kind or rng.choice(('curve', 'rect', 'ellipse'))
    closed = True
    if k == 'curve':
        closed = pb.filled or rng.random() < 0.6
        outside = ElemCurve('out', pb, blob(rng, n=rng.randint(4, 7), r=70), closed=closed)
    elif k == 'rect':
        outside = ElemRectangle('out', pb, Point(-50, -48), Point(52, 55))
    else:
        outside = ElemEllipse('out', pb, Point(-60, -64), Point(62, 60))
    holes = rng.choice((0, 1, 1, 2, 2, 3, 3, rng.randint(3, 6))) if holes is None else holes
    spots, lo, hi = [(-18, -14), (18, -14), (0, 18), (-36, 14), (36, 14), (0, -38)][:holes], 6, 9
    if rng.random() < 0.04 and holes:
        # far more, and smaller
        spots, lo, hi = rng.sample([(x, y) for x in range(-28, 29, 8) for y in range(-28, 29, 8)], rng.randint(8, 20)), 2, 3
    inside = []
    names = ['in%d' % i for i in range(6)] if rng.random() < 0.4 else rng.sample(['out', 'b', 'a', 'hole#10', 'hole#9', 'Z', "it's", ' '], 6)
    names += ['h%d' % i for i in range(len(spots))]
    for i, (cx, cy) in enumerate(spots):
        hk = rng.choice(('curve', 'rect', 'ellipse', 'rrect'))
        r = rng.uniform(lo, hi)
        p1, p2 = Point(cx-r, cy-r), Point(cx+r, cy+r)
        if hk == 'curve':
            e = ElemCurve(names[i], pb, blob(rng, r=r, center=(cx, cy)), closed=pb.filled or rng.random() < 0.7)
        elif hk == 'rect':
            e = ElemRectangle(names[i], pb, p1, p2)
        elif hk == 'ellipse':
            e = ElemEllipse(names[i], pb, p1, p2)
        else:
            e = ElemRectangleRounded(names[i], pb, p1, p2, r/3)
        inside.append(e)
    if rng.random() < 0.4:
        # give every part a transform of its own, with compensated geometry only for similarity maps
        oxf = transform(rng, 'similar')
        outside.xform = oxf
        for e in inside:
            e.xform = oxf.copy()
    return ElemWithHoles(nm, pb, outside, inside, closed=closed, xform=xform)


def uniq(rng, used, plain=False):
    while True:
        n = name(rng, plain)
        if '.' not in n and n not in used:
            used.add(n)
            return n


def group(rng, depth=2, nm=None, xform=None, holes=True, hidden=False, size=None, kinds=None, plain=False,
          elem_xform=None):
    """A random model"""
    pb = penbrush(rng, filled=False)
    g = Group(nm or name(rng, plain), pb, xform=transform(rng) if xform is None else xform,
              hidden=hidden and rng.random() < 0.25)
    used = set()
    n = size if size is not None else rng.randint(1, 4)
    if size is None and depth > 0 and rng.random() < 0.03:
        if rng.random() < 0.5:
            n = rng.randint(8, 20)
        else:
            depth += rng.randint(1, 3)
    for i in range(n):
        k = rng.random()
        en = uniq(rng, used, plain)
        if i and rng.random() < 0.15:       # a name that begins with another member's
            longer = rng.choice(list(g.elems)) + rng.choice(('x', '_r', '0', ' '))
            if longer not in used:
                used.add(longer)
                en = longer
        if depth > 0 and k < 0.3:
            g.add(en, group(rng, depth-1, nm=en, holes=holes, hidden=hidden, kinds=kinds, plain=plain,
                            elem_xform=elem_xform))
        elif holes and k < 0.45:
            g.add(en, holed(rng, nm=en))
        else:
            kd = rng.choice(kinds) if kinds else None
            g.add(en, elem(rng, kd, nm=en, xform=elem_xform and transform(rng, elem_xform)))
        if not elem_xform and rng.random() < 0.12:      # a member whose map happens to equal its group's
            g.elems[en].xform = g.xform.copy()
    return g
