"""C24: transforming control points preserves their smoothness kind."""
import math

import numpy as np
from x7.geom.geom import Point, PointRelative, PointCalc, Vector, VectorRelative, BBox
from x7.geom.transform import Transform, Transformer
from x7.geom.bezier import ControlPoint
from x7.geom.vec_field import Mesh, VectorField
from x7.geom.colors import PenBrush
from x7.geom.model import ElemCurve
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: transformed control points compared with pointwise images under affine and non-linear maps'
RULE = ('control points of all kinds (absolute, relative and computed bases, zero, tiny and one-sided handles) transformed by '
        'affine maps, by random smooth non-linear transformers in several return styles and by vector fields; results compared '
        'with images of the three points computed in plain Python; originals and results edited afterwards. '
        'Distinct by map and control point.')
ASSUMPTIONS = ['handles of the control point obey its kind before the transform',
               'non-linear maps do not fold both handle ends onto one point']
REQUIRED = {'uneven': 20, 'affine': 3000, 'affine-kind': 1500, 'center': 2500, 'very-smooth': 700, 'smooth-opposite': 600, 'smooth-length': 1000,
            'smooth-side': 700, 'sharp': 1000, 'zero': 700, 'unchanged': 3000, 'independent': 1500, 'composed': 400, 'curve': 800, 'close': 10000, 'rounded': 9500}


def bend(rng):
    """A smooth, injective (near the drawing area) non-linear map and its kind"""
    k = rng.randrange(5)
    if k == 0:      # shear growing with the square
        a, b = rng.uniform(-0.004, 0.004), rng.uniform(-20, 20)
        return lambda x, y: (x + a*(y-b)**2, y)
    if k == 1:      # waves
        a, w, p = rng.uniform(0.5, 8), rng.uniform(0.02, 0.1), rng.uniform(0, 6)
        return lambda x, y: (x, y + a*math.sin(w*x + p))
    if k == 2:      # twist
        w = rng.uniform(-0.01, 0.01)

        def twist(x, y):
            th = w*math.hypot(x, y)
            return x*math.cos(th) - y*math.sin(th), x*math.sin(th) + y*math.cos(th)
        return twist
    if k == 3:      # polar
        r = rng.uniform(400, 800)
        return lambda x, y: ((r + y)*math.sin(x/r), (r + y)*math.cos(x/r) - r)
    m = gen.mat6(rng)
    c = rng.uniform(0.0002, 0.0008)
    return lambda x, y: ref.aff(m, (x*math.exp(c*x), y*math.exp(c*y)))


class Bend(Transformer):
    """Non-linear transformer with one of the accepted styles of results"""
    LINEAR = False

    def __init__(self, func, style):
        self.func, self.style = func, style

    def transform_np_pts(self, np_pts):
        out = [self.func(x, y) for x, y in zip(np_pts[0].tolist(), np_pts[1].tolist())]
        if self.style == 'pairs':
            return out
        if self.style == 'triples':
            return [(x, y, 1) for x, y in out]
        if self.style == 'array':
            return np.array(out)
        return np.array([(x, y, 1) for x, y in out])


def nonlinear(rng):
    if rng.random() < 0.2:
        n = rng.randint(2, 6)
        size = 130
        f = rng.uniform(0, 12)
        vx = [[rng.uniform(-f, f) for _ in range(n)] for _ in range(n)]
        vy = [[rng.uniform(-f, f) for _ in range(n)] for _ in range(n)]
        vf = VectorField(Mesh(BBox(-size, -size, size, size), n), np.array(vx), np.array(vy))
        from props.c23 import blend, nodes
        xs, ys = nodes((-size, -size, size, size), n)
        vals = [[(vx[i][j], vy[i][j]) for j in range(n)] for i in range(n)]

        def func(x, y):
            v = blend(xs, ys, vals, x, y)
            return x + v[0], y + v[1]
        return vf, func
    func = bend(rng)
    return Bend(func, rng.choice(('pairs', 'triples', 'array', 'array3'))), func


def control_point(rng):
    """A control point that obeys its kind, its reference (c, dl, dr) and the points it depends on"""
    kind = rng.choice(gen.KINDS)
    k = rng.random()
    bases = []
    if k < 0.6:
        c = gen.pt(rng)
    elif k < 0.8:
        base = gen.pt(rng)
        bases.append(base)
        c = PointRelative(rng.uniform(-5, 5), rng.uniform(-5, 5), base)
    else:
        base = gen.pt(rng)
        bases.append(base)
        c = PointCalc(PointRelative(rng.uniform(-5, 5), rng.uniform(-5, 5), base), 0.5) if rng.random() < 0.5 else base
    size = rng.choice((30, 30, 5, 0.01))
    v = gen.vec(rng, size)
    if kind == 'very-smooth':
        dl, dr = v, -v
    elif kind == 'smooth':
        dl, dr = v, v * -rng.choice((0, 0.5, 1, 2, rng.uniform(0.1, 2)))
        if rng.random() < 0.3:
            dl, dr = dr, dl
        if rng.random() < 0.06:     # both handles on one side: no direction to line up
            dr = dl.copy() if rng.random() < 0.5 else gen.vec(rng, size)
    else:
        dl, dr = v, gen.vec(rng, size)
    return ControlPoint(c, dl, dr, kind), bases


def add(p, v):
    return p[0]+v[0], p[1]+v[1]


def sub(p, q):
    return p[0]-q[0], p[1]-q[1]


def edits(rng, mon, cp, out, bases):
    """Nothing done to one of them shows on the other"""
    for o, other in ((out, cp), (cp, out)):
        was = snap.snap(other)
        o.dl.setxy(rng.uniform(-9, 9), rng.uniform(-9, 9))
        o.dr = Vector(1, 2)
        if o is out or type(o.c) is Point:
            o.c.setxy(rng.uniform(-9, 9), 77)
        o.kind = 'sharp' if o.kind != 'sharp' else 'smooth'
        mon.check(snap.snap(other) == was, 'independent', other, was)
    was = snap.snap(out)
    for b in bases:
        b.setxy(55, 66)
    mon.check(snap.snap(out) == was, 'independent', 'bases')


def affine(rng, mon):
    cp, bases = control_point(rng)
    c, dl, dr = gen.cp_tuple(cp)
    t = gen.transform(rng)
    m = gen.aff_of(t)
    before = snap.snap(cp), snap.snap(t)
    if rng.random() < 0.3:
        t.push()
        before = snap.snap(cp), snap.snap(t)
    out = cp.transform(t)
    s = 200*(1 + max(abs(v) for v in m))
    mon.check(type(out) is ControlPoint and out.kind == cp.kind, 'affine-kind', cp, out)
    mon.near(out.c.xy(), ref.aff(m, c), 'affine', 'c', cp, m, scale=s)
    mon.near(out.l.xy(), ref.aff(m, add(c, dl)), 'affine', 'l', cp, m, scale=s)
    mon.near(out.r.xy(), ref.aff(m, add(c, dr)), 'affine', 'r', cp, m, scale=s)
    mon.near(out.dl.xy(), ref.aff_vec(m, dl), 'affine', 'dl', cp, m, scale=s)
    mon.near(out.dr.xy(), ref.aff_vec(m, dr), 'affine', 'dr', cp, m, scale=s)
    mon.check((snap.snap(cp), snap.snap(t)) == before, 'unchanged')
    if cp.kind == 'very-smooth':
        mon.near(out.dl.xy(), [-v for v in out.dr.xy()], 'very-smooth', cp, m, scale=s)
    # twice is the composition
    t2 = gen.transform(rng)
    m2 = gen.aff_of(t2)
    both = out.transform(t2)
    once = cp.transform(Transform(ref.aff_mul(m2, m)))
    s2 = s*(1 + max(abs(v) for v in m2))
    for p, q in zip(gen.cp_tuple(both), gen.cp_tuple(once)):
        mon.near(p, q, 'composed', cp, m, m2, scale=s2)
    edits(rng, mon, cp, out, bases)
    mon.sig('affine', c, dl, dr, cp.kind, m)


def bent(rng, mon):
    gen.usual(rng)
    cp, bases = control_point(rng)
    if cp.kind == 'very-smooth' and rng.random() < 0.3:
        # the handles as an edit left them: one taken away, or of another length
        k = rng.random()
        if k < 0.3:
            cp.dl = Vector(0, 0)
        elif k < 0.6:
            cp.dr = Vector(0, 0)
        else:
            cp.dr = gen.vec(rng, 10)
        mon.count('uneven')
    c, dl, dr = gen.cp_tuple(cp)
    t, f = nonlinear(rng)
    fc, fl, fr = f(*c), f(*add(c, dl)), f(*add(c, dr))
    ml, mr = sub(fl, fc), sub(fr, fc)
    span = sub(fr, fl)
    ll, lr, ls = math.hypot(*ml), math.hypot(*mr), math.hypot(*span)
    if cp.kind == 'smooth' and max(ll, lr) > 1e-6 and ls < 0.05*max(ll, lr):
        # folded: nothing is said about the direction, but the lengths and the center hold
        out = cp.transform(t)
        mon.near(out.c.xy(), fc, 'center', 'folded', cp, scale=400)
        mon.near((out.dl.length(), out.dr.length()), (ll, lr), 'smooth-length', 'folded', cp, out, scale=400)
        mon.check(out.kind == 'smooth', 'center', 'kind', cp, out)
        mon.count('folded')
        mon.sig('folded', c, dl, dr, fc, ml, mr)
        return
    before = snap.snap(cp)
    out = cp.transform(t)
    check_bent(mon, cp, out, fc, ml, mr, span)
    mon.check(snap.snap(cp) == before, 'unchanged', cp)
    edits(rng, mon, cp, out, bases)
    mon.sig('bent', c, dl, dr, cp.kind, fc, ml, mr)
    mon.sample(cp.kind, c, dl, dr, fc, ml, mr)


def check_bent(mon, cp, out, fc, ml, mr, span):
    kind = cp.kind
    ll, lr, ls = math.hypot(*ml), math.hypot(*mr), math.hypot(*span)
    s = 400
    mon.check(type(out) is ControlPoint and out.kind == kind, 'center', 'kind', cp, out)
    mon.near(out.c.xy(), fc, 'center', cp, scale=s)
    a, b = out.dl.xy(), out.dr.xy()
    if max(ll, lr) < 1e-12:
        mon.near(a + b, (0, 0, 0, 0), 'zero', cp, out, scale=s)
        return
    if kind == 'sharp':
        mon.near(a, ml, 'sharp', 'dl', cp, scale=s)
        mon.near(b, mr, 'sharp', 'dr', cp, scale=s)
    elif kind == 'very-smooth':
        mon.near(a, (-b[0], -b[1]), 'very-smooth', cp, out, scale=s)
        mon.near(b, (span[0]/2, span[1]/2), 'very-smooth', 'value', cp, out, scale=s)
    else:
        mon.near((math.hypot(*a), math.hypot(*b)), (ll, lr), 'smooth-length', cp, out, scale=s)
        # a zero handle stays zero; otherwise they are opposite and along the moved handle ends
        mon.near(a[0]*b[1] - a[1]*b[0], 0, 'smooth-opposite', cp, out, scale=s*max(1e-3, ll, lr))
        if min(ll, lr) > 1e-6:
            mon.near(a[0]*b[0] + a[1]*b[1], -ll*lr, 'smooth-opposite', 'sense', cp, out, scale=s*max(1e-3, ll, lr))
        if ls > 1e-6:
            # tiny handles: the direction is that of a difference of large numbers
            mon.near(b, (span[0]/ls*lr, span[1]/ls*lr), 'smooth-side', 'dr', cp, out, scale=s*(1 + lr/ls))
            mon.near(a, (-span[0]/ls*ll, -span[1]/ls*ll), 'smooth-side', 'dl', cp, out, scale=s*(1 + ll/ls))


def no_handles(rng, mon):
    """Zero handles stay zero for every kind and every map"""
    gen.usual(rng)
    c = gen.pt(rng)
    for kind in gen.KINDS:
        cp = ControlPoint(c.copy(), Vector(0, 0), Vector(0, 0), kind)
        t, f = nonlinear(rng)
        out = cp.transform(t)
        mon.near(out.c.xy(), f(*c.xy()), 'center', cp, scale=400)
        mon.near(out.dl.xy() + out.dr.xy(), (0, 0, 0, 0), 'zero', cp, scale=400)
        mon.check(out.kind == kind, 'zero', 'kind')
        m = gen.transform(rng)
        out = cp.transform(m)
        mon.near(out.dl.xy() + out.dr.xy(), (0, 0, 0, 0), 'zero', cp, scale=400)
    mon.sig('zero', c)


def curves(rng, mon):
    """Whole curves drawn through non-linear transformers"""
    gen.usual(rng)
    e = ElemCurve('e', PenBrush('black'), gen.cps(rng, rng.randint(1, 4)), closed=rng.random() < 0.5)
    t, f = nonlinear(rng)
    before = snap.snap(e)
    out = e.control_points_transformed(t)
    mon.check(len(out) == len(e.control_points), 'curve', len(out))
    for cp, o in zip(e.control_points, out):
        c, dl, dr = gen.cp_tuple(cp)
        fc, fl, fr = f(*c), f(*add(c, dl)), f(*add(c, dr))
        ml, mr, span = sub(fl, fc), sub(fr, fc), sub(fr, fl)
        ll, lr, ls = math.hypot(*ml), math.hypot(*mr), math.hypot(*span)
        if cp.kind == 'smooth' and max(ll, lr) > 1e-6 and ls < 0.05*max(ll, lr):
            continue
        check_bent(mon, cp, o, fc, ml, mr, span)
        mon.count('curve')
    mon.check(snap.snap(e) == before, 'unchanged', 'curve')
    mon.sig('curve', repr(e.control_points))


def compared(rng, mon):
    """Rounding and closeness of a control point are those of its parts"""
    cp, bases = control_point(rng)
    c, dl, dr = gen.cp_tuple(cp)
    digits = rng.choice((None, 0, 1, 2, 3, 5))
    out = cp.round() if digits is None else cp.round(digits)
    n = digits or 0
    mon.check(type(out) is ControlPoint and out.kind == cp.kind, 'rounded', 'kind', cp, out)
    exp = [tuple(round(v, n) for v in p) for p in (c, dl, dr)]
    got = gen.cp_tuple(out)
    exact = [type(o) in (Point, Vector) for o in (cp.c, cp.dl, cp.dr)]
    for p, q, e in zip(got, exp, exact):
        if e:
            mon.check(tuple(p) == q, 'rounded', cp, out, digits)
        else:
            mon.near(p, q, 'rounded', cp, out, digits, rel=0.51*10.0**-n, scale=2)
    # closeness: every part within the distance, and the same kind
    size = rng.choice((1e-12, 1e-6, 1e-3, 1.0, 20.0))
    part = rng.randrange(4)
    th = rng.uniform(0, 2*math.pi)
    d = [(0.0, 0.0)]*3
    if part < 3:
        d[part] = (size*math.cos(th), size*math.sin(th))
    kind = rng.choice([k for k in gen.KINDS if k != cp.kind]) if part == 3 else cp.kind
    other = ControlPoint(Point(*add(c, d[0])), Vector(*add(dl, d[1])), Vector(*add(dr, d[2])), kind)
    for delta, exp in ((size*2 + 1e-11, True), (size*0.5, False)):
        if size < 1e-9 and not exp:
            continue
        mon.check(bool(cp.close(other, delta)) == (exp and part < 3), 'close', cp, other, delta)
        mon.check(bool(other.close(cp, max_delta=delta)) == (exp and part < 3), 'close', 'other way', cp, other, delta)
    if size >= 1e-3 or size <= 1e-12:
        mon.check(bool(cp.close(other)) == (part < 3 and size < 1e-9), 'close', 'default', cp, other)
    mon.sig('compared', c, dl, dr, cp.kind, part, size, digits)


KINDS = [(compared, 6000, 24000), (affine, 30000, 120000), (bent, 48000, 200000), (no_handles, 3600, 14400), (curves, 9000, 40000)]
