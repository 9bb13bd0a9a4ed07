"""C05: transforms compose as documented and all point interfaces agree."""
import math

from x7.geom.geom import Point, PointRelative, BBox
from x7.geom.transform import Transform, Matrix
from monlib import gen, pool, ref

RULE = ('seeded histories of 1-14 transform operations (translate, scale, rotate, rotate_ccw, rotate_about, compose, '
        'compose_outer, scale_bbox, reset, set_matrix, copy) shadowed online by a plain-Python affine product; after every '
        'operation probe points go through every point interface. Non-trivial: at least two different operations; distinct '
        'by operation names and rounded final matrix.')
ASSUMPTIONS = ['floating-point agreement is judged at 1e-9 relative to the largest intermediate magnitude']
REQUIRED = {'map-6tuple': 500, 'pts-tuple': 500, 'scale_bbox': 50, 'simplify': 100, 'canvas_fit': 50}


def probe(mon, t, m, rng, big, trail):
    pts = [(0, 0), gen.xy(rng), gen.xy(rng)] + [gen.xy(rng) for _ in range(gen.some(rng, 0, 0, 40, 0.02))]
    exp = [ref.aff(m, p) for p in pts]
    sc = big * 200
    mon.near(t.as_6tuple(), m, 'map-6tuple', trail, scale=sc)
    mon.near(t.transform(*pts[1]), exp[1], 'transform', trail, scale=sc)
    pp = t.transform_pt(Point(*pts[1]))
    mon.check(isinstance(pp, Point), 'transform_pt-type', type(pp))
    mon.near(pp.xy(), exp[1], 'transform_pt', trail, scale=sc)
    got = t.transform_pt(Point(*pts[2]), as_pt=False)
    mon.check(isinstance(got, tuple) and len(got) == 2, 'transform_pt-tuple', got)
    mon.near(got, exp[2], 'transform_pt', trail, scale=sc)
    rel = PointRelative(pts[1][0], pts[1][1], Point(*pts[2]))
    mon.near(t.transform_pt(rel).xy(), ref.aff(m, rel.xy()), 'transform_pt-relative', trail, scale=sc)
    got = t.transform_pts(list(pts))
    mon.check(all(isinstance(g, tuple) for g in got), 'transform_pts-type', got)
    mon.near([v for g in got for v in g], [v for e in exp for v in e], 'pts-tuple', trail, scale=sc)
    got = t.transform_pts([Point(*p) for p in pts])
    mon.check(all(isinstance(g, Point) for g in got), 'transform_pts-type', got)
    mon.near([v for g in got for v in g.xy()], [v for e in exp for v in e], 'pts-point', trail, scale=sc)
    for arg in (list(pts), [Point(*p) for p in pts]):
        got = t.transform_pts(arg, flatten=True)
        mon.near(got, [v for e in exp for v in e], 'pts-flat', trail, scale=sc)
    w = rng.uniform(0, 10)
    sx, sy = math.hypot(m[0], m[3]), math.hypot(m[1], m[4])
    mon.near(t.scale_vals(), (sx, sy), 'scale_vals', trail, scale=big)
    mon.near(t.transform_width(w), w * (sx + sy) / 2, 'width', trail, scale=big*10)


def history(rng, mon):
    t = Transform()
    m = ref.IDENT
    if rng.random() < 0.3:
        m = gen.mat6(rng)
        t = Transform(m)
    trail, names = [], set()
    big = max(1.0, max(abs(v) for v in m))
    for _ in range(gen.some(rng, 1, 14, 90)):
        k = rng.random()
        if k < 0.75:
            name, args = gen.op(rng)
            mat, where = gen.ref_op(name, args)
            if name in ('compose', 'compose_outer') and rng.random() < 0.3:
                rows = [list(mat[0:3]), list(mat[3:6]), [0, 0, 1]]
                ret = getattr(t, name)(Matrix(rows))
            else:
                ret = gen.real_op(t, name, args)
            m = ref.aff_mul(mat, m) if where == 'outer' else ref.aff_mul(m, mat)
            mon.check(ret is t, 'returns-self', name)
        elif k < 0.83:
            a, b = gen.xy(rng), gen.xy(rng)
            while abs(a[0]-b[0]) < min(1, gen.scene(rng)) or abs(a[1]-b[1]) < min(1, gen.scene(rng)):
                b = gen.xy(rng)
            s, g = BBox(Point(*a), Point(*b)), BBox(Point(*gen.xy(rng)), Point(*gen.xy(rng)))
            keep = rng.random() < 0.5
            name, args = 'scale_bbox', (tuple(s), tuple(g), keep)
            ret = t.scale_bbox(s, g, keep_aspect=keep)
            mon.check(ret is t, 'returns-self', name)
            fx, fy = (g.xh-g.xl)/(s.xh-s.xl), (g.yh-g.yl)/(s.yh-s.yl)
            if keep:
                fx = fy = min(fx, fy)
                scx, scy = (s.xl+s.xh)/2, (s.yl+s.yh)/2
                gcx, gcy = (g.xl+g.xh)/2, (g.yl+g.yh)/2
                mat = (fx, 0, gcx-fx*scx, 0, fy, gcy-fy*scy)
            else:
                mat = (fx, 0, g.xl-fx*s.xl, 0, fy, g.yl-fy*s.yl)
            m = ref.aff_mul(mat, m)
            mon.count('scale_bbox')
        elif k < 0.87:
            name, args = 'reset', ()
            mon.check(t.reset() is t, 'returns-self', name)
            m = ref.IDENT
            big = 1.0
        elif k < 0.93:
            m2 = gen.mat6(rng)
            src = Transform(m2)
            name, args = 'set_matrix', (m2,)
            t.set_matrix(src)
            m = m2
            src.translate(5, 5)         # the source stays independent
        else:
            name, args = 'copy', ()
            old, om = t, m
            t = t.copy()
            mon.check(type(t) is Transform and t == old, 'copy-equal')
            t.translate(1, 2).scale(2, 3)
            m = ref.aff_mul(ref.mat_scale(2, 3), ref.aff_mul(ref.mat_translate(1, 2), m))
            mon.near(old.as_6tuple(), om, 'copy-independent', trail, scale=big*200)
        names.add(name)
        trail.append((name, args))
        big = max(big, max(abs(v) for v in m))
        if big > 1e8:
            break
        probe(mon, t, m, rng, big, trail)
    mon.check(t == Transform(t.as_6tuple()), 'eq-self', trail)
    if len(names) >= 2:
        mon.sig(tuple(n for n, a in trail), tuple(round(v, 3) for v in m))
        mon.sample(trail, m)


def order(rng, mon):
    """Two-operation order: apply op1 then op2 to the point by hand, using the single operations themselves."""
    n1, a1 = gen.op(rng)
    n2, a2 = gen.op(rng)
    t = Transform()
    gen.real_op(t, n1, a1)
    gen.real_op(t, n2, a2)
    p = gen.xy(rng)
    one = gen.real_op(Transform(), n1, a1)
    two = gen.real_op(Transform(), n2, a2)
    q = one.transform(*two.transform(*p)) if n2 == 'compose' else two.transform(*one.transform(*p))
    mon.near(t.transform(*p), q, 'order', n1, a1, n2, a2, scale=1e4)
    r = Transform(one.as_6tuple()).compose(two)
    mon.near(r.transform(*p), one.transform(*two.transform(*p)), 'compose-first', scale=1e4)
    r = Transform(one.as_6tuple()).compose_outer(two)
    mon.near(r.transform(*p), two.transform(*one.transform(*p)), 'compose-last', scale=1e4)
    mon.check(one == gen.real_op(Transform(), n1, a1) and two == gen.real_op(Transform(), n2, a2), 'operands-unchanged')
    mon.sig('order', n1, n2, round(p[0], 3), round(p[1], 3))


def helpers(rng, mon):
    # scale_bbox on a fresh transform: the start box lands exactly on the target
    a, b = gen.xy(rng), gen.xy(rng)
    while abs(a[0]-b[0]) < min(1, gen.scene(rng)) or abs(a[1]-b[1]) < min(1, gen.scene(rng)):
        b = gen.xy(rng)
    s, g = BBox(Point(*a), Point(*b)), BBox(Point(*gen.xy(rng)), Point(*gen.xy(rng)))
    t = Transform().scale_bbox(s, g)
    mon.near(t.transform(s.xl, s.yl) + t.transform(s.xh, s.yh), tuple(g), 'scale_bbox-corners', s, g, scale=1e3)
    t = Transform().scale_bbox(s, g, keep_aspect=True)
    ll, hh = t.transform(s.xl, s.yl), t.transform(s.xh, s.yh)
    mon.near(((ll[0]+hh[0])/2, (ll[1]+hh[1])/2), ((g.xl+g.xh)/2, (g.yl+g.yh)/2), 'keep_aspect-centred', s, g, scale=1e3)
    w, h = hh[0]-ll[0], hh[1]-ll[1]
    mon.near(w * (s.yh-s.yl), h * (s.xh-s.xl), 'keep_aspect-uniform', s, g, scale=1e4)
    gw, gh = g.xh-g.xl, g.yh-g.yl
    mon.check(w <= gw + 1e-7 and h <= gh + 1e-7 and (abs(w-gw) < 1e-7 or abs(h-gh) < 1e-7), 'keep_aspect-largest', s, g, w, h)
    # rotations by very little
    d = 10**rng.uniform(-9, 0) * rng.choice((1, -1))
    for op, sign in (('rotate', 1), ('rotate_ccw', -1)):
        t = getattr(Transform(), op)(d)
        m6 = t.as_6tuple()
        mon.near((m6[0], m6[4]), (math.cos(math.radians(d)),)*2, 'small-angle', op, d)
        mon.check(all(abs(v/math.sin(math.radians(d)) - sign*k) < 1e-6 for v, k in ((m6[1], 1), (m6[3], -1))), 'small-angle', op, d, m6)
    # canvas_fit
    size = (rng.randint(1, 2000), rng.randint(1, 2000))
    zoom = rng.choice((1.0, 5, rng.uniform(0.1, 9)))
    zz = gen.xy(rng)
    k = rng.random()
    if k < 0.3:
        t, zoom, zz = Transform.canvas_fit(size), 1.0, (0, 0)
    else:
        t = Transform.canvas_fit(size, zoom, zz)
    x, y = gen.xy(rng)
    mon.near(t.transform(x, y), (zoom*x + zz[0], size[1] - (zoom*y + zz[1])), 'canvas_fit', size, zoom, zz, scale=1e4)
    # simplify
    t = gen.transform(rng)
    before = t.as_6tuple()
    u, v = t.simplify()
    mon.check(t.as_6tuple() == before, 'simplify-pure')
    mu, mv = gen.aff_of(u), gen.aff_of(v)
    mon.near(ref.aff_mul(mu, mv), gen.aff_of(t), 'simplify', t, scale=1e3)
    mon.near((mv[2], mv[5]), (0, 0), 'simplify-linear', t)
    simple = (m[1] == m[3] == 0) or (m[0] == m[4] == 0) if (m := gen.mat6(rng)) else None
    if simple or (max(abs(m[1]), abs(m[3])) > 1e-9 and max(abs(m[0]), abs(m[4])) > 1e-9):
        mon.check(bool(Transform(m).is_simple()) == simple, 'is_simple', m)
        u, v = Transform(m).simplify()
        if not simple:
            mon.near(u.as_6tuple(), (1, 0, m[2], 0, 1, m[5]), 'simplify-translation', m)
        else:
            mon.near(u.as_6tuple(), m, 'simplify-simple', m, scale=1e3)
            mon.near(v.as_6tuple(), (1, 0, 0, 0, 1, 0), 'simplify-simple', 'rest', m)
    z = list(gen.mat6(rng))
    z[rng.choice((0, 1, 3, 4))] = 0.0
    if sum(1 for i in (0, 1, 3, 4) if z[i] == 0) == 1 and min(abs(z[i]) for i in (0, 1, 3, 4) if z[i]) > 1e-9:
        mon.check(not Transform(tuple(z)).is_simple(), 'is_simple', 'one zero', z)
    # degrees and directions
    d = gen.angle(rng)
    p = gen.xy(rng)
    q = Transform().rotate_ccw(d).transform(*p)
    c, s_ = math.cos(math.radians(d)), math.sin(math.radians(d))
    mon.near(q, (c*p[0]-s_*p[1], s_*p[0]+c*p[1]), 'rotate_ccw', d, p, scale=100)
    mon.near(Transform().rotate(d).transform(*p), Transform().rotate_ccw(-d).transform(*p), 'rotate-cw', d, p, scale=100)
    ctr = gen.xy(rng)
    t = Transform().rotate_about(d, Point(*ctr))
    mon.near(t.transform(*ctr), ctr, 'rotate_about-fixed', d, ctr, scale=100)
    mon.check(Transform.identity() == Transform() and tuple(Transform().as_6tuple()) == (1, 0, 0, 0, 1, 0), 'identity')
    mon.sig('helpers', size, round(zoom, 4), tuple(s), tuple(g))


def pooled(rng, mon):
    pool.history(rng, mon, inverse=0.0)


KINDS = [(history, 10000, 60000), (order, 6000, 30000), (helpers, 6000, 30000), (pooled, 4800, 30000)]
