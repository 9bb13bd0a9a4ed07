"""C10: curve intersections are real, complete and symmetric."""
import math

import numpy as np
from bezier import Curve

from x7.geom.geom import Point, Vector
from x7.geom.bezier import ControlPoint, bez_intersect, bez_intersect_new
from monlib import gen, ref
from monlib.runner import SkipCase

TECHNIQUE = 'runtime monitoring: every reported crossing re-evaluated; completeness against a polyline+Newton crossing finder'
RULE = ('pairs of cubic segments: random, straight, with a planted transversal crossing at chosen parameters, disjoint, and '
        'sharing an end point; results are re-evaluated on both curves and compared with an independent crossing finder. '
        'Non-trivial: at least one crossing is known or reported; distinct by control polygons.')
ASSUMPTIONS = ['pairs the external bezier solver itself declines (checked by calling it directly) are outside the property',
               'completeness is judged for crossings at more than 3 degrees, more than 0.02 from all ends in parameter and '
               'separated from others by 0.04 in parameter',
               'parameters compared to 1e-5, points to 1e-6 of the curve size']
REQUIRED = {'on-both': 1500, 'none-missed': 700, 'symmetric': 1200, 'joint': 300, 'not-a-joint': 300, 'common-end': 80, 'forms-agree': 1000, 'none-invented': 300}


def cp_pair(p, rng):
    k = rng.choice(gen.KINDS)
    return (ControlPoint(Point(*p[0]), gen.vec(rng), Vector(p[1][0]-p[0][0], p[1][1]-p[0][1]), k),
            ControlPoint(Point(*p[3]), Vector(p[2][0]-p[3][0], p[2][1]-p[3][1]), gen.vec(rng), k))


def exact(cps):
    """Polygon as the control points represent it"""
    a, b = cps
    (c, _, r), (c2, l2, _) = gen.cp_tuple(a), gen.cp_tuple(b)
    return [c, (c[0]+r[0], c[1]+r[1]), (c2[0]+l2[0], c2[1]+l2[1]), c2]


def curve(rng):
    k = rng.random()
    if k < 0.6:
        return [gen.xy(rng) for _ in range(4)]
    if k < 0.75:    # straight
        a, b = gen.xy(rng), gen.xy(rng)
        return [a, (a[0]*2/3+b[0]/3, a[1]*2/3+b[1]/3), (a[0]/3+b[0]*2/3, a[1]/3+b[1]*2/3), b]
    if k < 0.9:     # arc like
        a, b = gen.xy(rng), gen.xy(rng)
        n = (b[1]-a[1])*0.4, (a[0]-b[0])*0.4
        return [a, (a[0]+n[0], a[1]+n[1]), (b[0]+n[0], b[1]+n[1]), b]
    x, y, d, f = gen.coord(rng), gen.coord(rng), rng.uniform(5, 60), rng.choice((0, 1))     # axis aligned
    return [(x, y)] + [(x+d*i/3*f, y+d*i/3*(1-f)) for i in (1, 2, 3)]


def declined(p, q):
    """Does the external solver itself refuse this pair?"""
    k = 2.0**min(0, 7 - math.frexp(size(p, q))[1])      # the solver works in absolute tolerances: judge it in its own range
    try:
        ca, cb = (Curve(k*np.array(c, dtype=float).T, 3) for c in (p, q))
        ca.intersect(cb)
        return False
    except (NotImplementedError, ValueError):
        return True


def size(*polys):
    return max([1.0] + [abs(v) for p in polys for q in p for v in q])


def newton(p, q, s, t):
    for _ in range(30):
        a, b = ref.cubic(p, s), ref.cubic(q, t)
        da, db = ref.cubic_d(p, s), ref.cubic_d(q, t)
        det = -da[0]*db[1] + da[1]*db[0]
        if det == 0:
            return None
        ex, ey = a[0]-b[0], a[1]-b[1]
        ds, dt = (ex*db[1] - ey*db[0]) / det, (-ey*da[0] + ex*da[1]) / det
        s, t = s+ds, t+dt
        if not (-0.5 < s < 1.5 and -0.5 < t < 1.5):
            return None
        if abs(ds) + abs(dt) < 1e-13:
            break
    a, b = ref.cubic(p, s), ref.cubic(q, t)
    return (s, t) if math.dist(a, b) < 1e-9 * size(p, q) else None


def finder(p, q, n=40):
    """Independent list of crossings (s, t)"""
    pa = np.array([ref.cubic(p, i/n) for i in range(n+1)])
    pb = np.array([ref.cubic(q, i/n) for i in range(n+1)])
    a0, da = pa[:-1, None], (pa[1:] - pa[:-1])[:, None]
    b0, db = pb[None, :-1], (pb[1:] - pb[:-1])[None]
    det = da[..., 0]*db[..., 1] - da[..., 1]*db[..., 0]
    w = b0 - a0
    with np.errstate(all='ignore'):
        u = (w[..., 0]*db[..., 1] - w[..., 1]*db[..., 0]) / det
        v = (w[..., 0]*da[..., 1] - w[..., 1]*da[..., 0]) / det
    out = []
    for i, j in np.argwhere((det != 0) & (u >= -0.3) & (u <= 1.3) & (v >= -0.3) & (v <= 1.3)):
        r = newton(p, q, (i+u[i, j])/n, (j+v[i, j])/n)
        if r and not any(abs(r[0]-x[0]) + abs(r[1]-x[1]) < 1e-8 for x in out):
            out.append(r)
    return out


def sound(mon, cps, p, q, res):
    s = size(p, q)
    for r in res:
        pt, ta, tb = r
        mon.check(0 <= ta <= 1 and 0 <= tb <= 1, 'in-range', ta, tb, cps)
        a, b = ref.cubic(p, ta), ref.cubic(q, tb)
        mon.near(a, b, 'on-both', ta, tb, cps, rel=1e-6, scale=s)
        mon.near(pt.xy(), a, 'on-both', 'reported point', ta, tb, cps, rel=1e-6, scale=s)


def judged(p, q, cross):
    """The crossings that have to be reported"""
    out = []
    for i, (s, t) in enumerate(cross):
        if not (0.02 < s < 0.98 and 0.02 < t < 0.98):
            continue
        da, db = ref.cubic_d(p, s), ref.cubic_d(q, t)
        la, lb = math.hypot(*da), math.hypot(*db)
        if la < 1e-2 or lb < 1e-2 or abs(da[0]*db[1]-da[1]*db[0]) / (la*lb) < 0.05:
            continue
        if any(j != i and (abs(s-s2) < 0.04 and abs(t-t2) < 0.04) for j, (s2, t2) in enumerate(cross)):
            continue
        out.append((s, t))
    return out


def forms(mon, a, b, res, endpoints):
    pts = bez_intersect(*a, *b, as_points=True, endpoints=endpoints)
    par = bez_intersect(*a, *b, endpoints=endpoints)
    mon.check([p.xy() for p in pts] == [r[0].xy() for r in res], 'forms-agree', pts, res)
    mon.check([tuple(float(v) for v in row) for row in par] ==
              [tuple(float(r[k]) for r in res) for k in (1, 2)] if res else not par, 'forms-agree', par, res)


def both(mon, rng, p, q, planted=None):
    a, b = cp_pair(p, rng), cp_pair(q, rng)
    p, q = exact(a), exact(b)
    if declined(p, q) or declined(q, p):
        mon.count('declined')
        raise SkipCase()
    ep = rng.random() < 0.3
    res = bez_intersect_new(*a, *b, endpoints=ep)
    rev = bez_intersect_new(*b, *a, endpoints=ep)
    sound(mon, (a, b), p, q, res)
    sound(mon, (b, a), q, p, rev)
    if rng.random() < 0.4:
        forms(mon, a, b, res, ep)
    got = [(r[1], r[2]) for r in res]
    cross = finder(p, q)
    must = judged(p, q, cross)
    if planted:
        mon.count('planted')
        if not any(abs(s-planted[0]) + abs(t-planted[1]) < 1e-6 for s, t in cross):
            mon.count('planted-unclear')        # tangential or part of a cluster: the finder itself cannot tell
            raise SkipCase()
    for s, t in must:
        mon.check(any(abs(s-x) < 1e-5 and abs(t-y) < 1e-5 for x, y in got), 'none-missed', (s, t), got, p, q)
        mon.check(any(abs(s-y) < 1e-5 and abs(t-x) < 1e-5 for x, y in ((r[1], r[2]) for r in rev)), 'none-missed',
                  'swapped', (s, t), rev, p, q)
    if not cross:
        mon.count('no-crossing-pairs')
        hull_gap = gap(p, q)
        if hull_gap > 1e-6 * size(p, q):
            mon.check(not res and not rev, 'none-invented', res, p, q)
    # exchanging the curves exchanges the parameters (judged on clean crossings, and on the whole set if all are clean)
    if must and len(must) == len(cross) == len(got):
        sw = sorted((r[2], r[1]) for r in rev)
        mon.check(len(sw) == len(got) and all(abs(x[0]-y[0]) < 1e-5 and abs(x[1]-y[1]) < 1e-5
                                              for x, y in zip(sorted(got), sw)), 'symmetric', got, rev, p, q)
        # each crossing is reported once
        mon.check(len(got) == len(must), 'once', got, must)
        for r in res:
            near = min(math.dist(r[0].xy(), o[0].xy()) for o in rev)
            mon.check(near < 1e-5*size(p, q), 'symmetric', 'points', r, rev)
    if res or must:
        mon.sig(p, q)


def gap(p, q):
    """A lower bound on the distance of two curves by sampling (approximate)"""
    a = np.array([ref.cubic(p, i/60) for i in range(61)])
    b = np.array([ref.cubic(q, i/60) for i in range(61)])
    d = np.sqrt(((a[:, None]-b[None])**2).sum(-1)).min()
    step = max(np.sqrt(((a[1:]-a[:-1])**2).sum(-1)).max(), np.sqrt(((b[1:]-b[:-1])**2).sum(-1)).max())
    return d - 1.01*step


def random_pair(rng, mon):
    for _ in range(2):
        both(mon, rng, curve(rng), curve(rng))


def planted(rng, mon):
    p, q = curve(rng), curve(rng)
    s, t = rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95)
    a, b = ref.cubic(p, s), ref.cubic(q, t)
    q = [(x[0]+a[0]-b[0], x[1]+a[1]-b[1]) for x in q]
    if rng.random() < 0.2:      # other magnitudes
        k = 10.0**rng.randint(-2, 6)
        p, q = ([(x[0]*k, x[1]*k) for x in c] for c in (p, q))
        if size(p, q) < 1:
            raise SkipCase()
    both(mon, rng, p, q, (s, t))


def disjoint(rng, mon):
    p, q = curve(rng), curve(rng)
    w = max(x[0] for x in p) - min(x[0] for x in q) + rng.uniform(0.1, 30)
    h = rng.uniform(-40, 40)
    q = [(x[0]+w, x[1]+h) for x in q]
    a, b = cp_pair(p, rng), cp_pair(q, rng)
    p, q = exact(a), exact(b)
    if declined(p, q) or declined(q, p):
        raise SkipCase()
    for x, y in ((a, b), (b, a)):
        mon.check(bez_intersect_new(*x, *y, endpoints=True) == [], 'none-invented', p, q)
        mon.check(not bez_intersect(*x, *y) and not bez_intersect(*x, *y, as_points=True), 'none-invented', p, q)


def joint(rng, mon):
    """B starts where A ends (or the reverse)"""
    p = [gen.xy(rng) for _ in range(4)]
    q = [p[3]] + [gen.xy(rng) for _ in range(3)]
    a, b = cp_pair(p, rng), cp_pair(q, rng)
    p, q = exact(a), exact(b)
    if p[3] != q[0] or declined(p, q) or declined(q, p):
        raise SkipCase()
    for x, y, px, py, jt in ((a, b, p, q, (1, 0)), (b, a, q, p, (0, 1))):
        with_, without = bez_intersect_new(*x, *y, endpoints=True), bez_intersect_new(*x, *y)
        par = bez_intersect(*x, *y)
        sound(mon, (x, y), px, py, with_)

        def at_joint(s, t):
            return abs(s-jt[0]) < 1e-12 and abs(t-jt[1]) < 1e-12
        mon.check(not any(at_joint(s, t) for _, s, t in without), 'joint', 'reported without endpoints', px, py, without)
        mon.check(not any(at_joint(s, t) for s, t in zip(*par)), 'joint', 'bez_intersect', px, py, par)
        if transversal_end(px, py, jt):
            mon.check(any(abs(s-jt[0]) < 1e-6 and abs(t-jt[1]) < 1e-6 for _, s, t in with_), 'joint',
                      'not reported with endpoints', px, py, with_)
        # everything else is the same
        rest = sorted((s, t) for _, s, t in with_ if not at_joint(s, t) and (s, t) not in ((1, 0), (0, 1)))
        mon.check(rest == sorted((s, t) for _, s, t in without), 'joint', 'others kept', with_, without)
        forms(mon, x, y, without, False)
        forms(mon, x, y, with_, True)
        inner = finder(px, py)
        for s, t in judged(px, py, inner):
            mon.check(any(abs(s-u) < 1e-5 and abs(t-v) < 1e-5 for _, u, v in without), 'none-missed', 'joint pair', (s, t),
                      without, px, py)
    mon.sig('joint', p, q)


def ends(rng, mon):
    """Common points that are no joint: start meets start, end meets end, an end on the inside of the other curve"""
    p = [gen.xy(rng) for _ in range(4)]
    k = rng.randrange(4)
    if k == 0:
        q = [p[0]] + [gen.xy(rng) for _ in range(3)]
    elif k == 1:
        q = [gen.xy(rng) for _ in range(3)] + [p[3]]
    elif k == 2:
        q = [ref.cubic(p, rng.choice((0.5, 0.25, rng.uniform(0.1, 0.9))))] + [gen.xy(rng) for _ in range(3)]
    else:
        q = [gen.xy(rng) for _ in range(3)] + [ref.cubic(p, rng.choice((0.5, 0.25, rng.uniform(0.1, 0.9))))]
    a, b = cp_pair(p, rng), cp_pair(q, rng)
    p, q = exact(a), exact(b)
    if declined(p, q) or declined(q, p):
        raise SkipCase()
    for x, y, px, py in ((a, b, p, q), (b, a, q, p)):
        with_, without = bez_intersect_new(*x, *y, endpoints=True), bez_intersect_new(*x, *y)
        sound(mon, (x, y), px, py, with_)
        sound(mon, (x, y), px, py, without)
        keep = sorted((s, t) for _, s, t in with_ if (s, t) not in ((0, 1), (1, 0)))
        mon.check(keep == sorted((s, t) for _, s, t in without), 'not-a-joint', with_, without)
        jt = {0: (0, 0), 1: (1, 1)}.get(k)
        if jt and px[3*jt[0]] == py[3*jt[0]] and transversal_end(px, py, jt):
            mon.count('common-end')
            mon.check(any(abs(s-jt[0]) < 1e-6 and abs(t-jt[1]) < 1e-6 for _, s, t in without), 'common-end-found', px, py,
                      without)
        forms(mon, x, y, without, False)
        forms(mon, x, y, with_, True)
    mon.sig('ends', p, q)


def transversal_end(p, q, jt):
    da, db = ref.cubic_d(p, jt[0]), ref.cubic_d(q, jt[1])
    la, lb = math.hypot(*da), math.hypot(*db)
    return la > 1 and lb > 1 and abs(da[0]*db[1]-da[1]*db[0]) / (la*lb) > 0.1


KINDS = [(random_pair, 700, 11000), (planted, 1500, 20000), (disjoint, 400, 4000), (joint, 500, 7000), (ends, 400, 5000)]
