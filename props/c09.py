"""C09: Bezier evaluation and subdivision describe the same curve."""
from x7.geom.geom import Point, Vector
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint, bez, bez_split, bez_path
from x7.geom.model import ElemCurve
from x7.geom.colors import PenBrush
from monlib import gen, ref

TECHNIQUE = 'runtime monitoring: Bernstein / subdivision reference oracle on randomised curves and subdivision histories'
RULE = ('random cubic segments (generic, collinear, coincident, zero handles, large/small magnitudes) evaluated, split at '
        'random t, split repeatedly, reversed, mapped; curves refined by repeated add_one, open and closed. Every sample and '
        'sub-curve is compared with an independent Bernstein evaluation. Non-trivial: not all four control points equal; '
        'distinct by control polygon.')
ASSUMPTIONS = ['steps >= 1, 0 <= t <= 1', 'tolerance 1e-9 relative to the coordinates involved']
REQUIRED = {'sample': 3000, 'end-exact': 2400, 'split-shape': 3000, 'add-one-shape': 500, 'retrace': 500, 'commute': 500,
            'bez-path': 1000}


def mag(pts):
    return max([1.0] + [abs(v) for p in pts for v in p])


def polygon(rng):
    k = rng.random()
    if k < 0.55:
        p = [gen.xy(rng) for _ in range(4)]
    elif k < 0.65:      # collinear
        a, v = gen.xy(rng), gen.vec(rng)
        p = [(a[0] + s*v.x, a[1] + s*v.y) for s in (rng.uniform(-2, 2) for _ in range(4))]
    elif k < 0.8:       # coincident points
        q = [gen.xy(rng) for _ in range(2)]
        p = [rng.choice(q) for _ in range(4)]
    elif k < 0.9:
        p = [(gen.num(rng), gen.num(rng)) for _ in range(4)]
    else:               # straight without handles
        a, b = gen.xy(rng), gen.xy(rng)
        p = [a, a, b, b]
    return p


def seg(rng, p=None):
    """Two control points for a polygon, with outer handles"""
    p = p or polygon(rng)
    v1 = Vector(p[1][0]-p[0][0], p[1][1]-p[0][1])
    v2 = Vector(p[2][0]-p[3][0], p[2][1]-p[3][1])
    k1, k2 = rng.choice(gen.KINDS), rng.choice(gen.KINDS)
    o1 = -v1 if k1 == 'very-smooth' else (v1 * -rng.uniform(0, 2) if k1 == 'smooth' else gen.vec(rng))
    o2 = -v2 if k2 == 'very-smooth' else (v2 * -rng.uniform(0, 2) if k2 == 'smooth' else gen.vec(rng))
    return ControlPoint(Point(*p[0]), o1, v1, k1), ControlPoint(Point(*p[3]), v2, o2, k2)


def pts_of(cp1, cp2):
    (c, l, r), (c2, l2, r2) = gen.cp_tuple(cp1), gen.cp_tuple(cp2)
    return [c, (c[0]+r[0], c[1]+r[1]), (c2[0]+l2[0], c2[1]+l2[1]), c2]


def evaluate(rng, mon):
    for _ in range(4):
        p = polygon(rng)
        n = rng.choice((1, 2, 3, 4, 7, 10, 20, 80, rng.randint(1, 120), rng.randint(100, 1500)))
        raw = [Point(*q) if rng.random() < 0.5 else q for q in p]
        if rng.random() < 0.3:
            raw = tuple(raw)
        flat, pairs = bez(raw, steps=n), bez(raw, steps=n, as_xy=True)
        mon.check(len(pairs) == n+1 and len(flat) == 2*n+2, 'count', n, len(pairs), len(flat))
        mon.near([v for q in pairs for v in q], list(flat), 'forms-agree', p, n, rel=1e-12, scale=mag(p))
        mon.check(tuple(pairs[0]) == tuple(p[0]) and tuple(pairs[-1]) == tuple(p[3]), 'end-exact', p, n)
        s = mag(p)
        for i, q in enumerate(pairs):
            mon.near(q, ref.cubic(p, i/n), 'sample', p, n, i, scale=s, rel=1e-11)
        if len(set(p)) > 1:
            mon.sig('bez', p, n)
    default = bez([Point(*q) for q in p])
    mon.check(len(default) == 162, 'count', 'default steps')


def same_seg(mon, got, want, t0, t1, name, *detail):
    """got polygon == want restricted to t0..t1"""
    s = mag(want)
    for u in (0.0, 0.2, 1/3, 0.5, 0.77, 1.0):
        mon.near(ref.cubic(got, u), ref.cubic(want, t0 + u*(t1-t0)), name, u, t0, t1, *detail, scale=s)


def obeys(mon, cp, s, where):
    """The kind describes the handles"""
    c, l, r = gen.cp_tuple(cp)
    if cp.kind == 'very-smooth':
        mon.near((l[0]+r[0], l[1]+r[1]), (0, 0), 'kind-obeyed', where, cp, scale=s)
    elif cp.kind == 'smooth':
        mon.check(abs(l[0]*r[1]-l[1]*r[0]) <= 1e-7*s*s and l[0]*r[0]+l[1]*r[1] <= 1e-7*s*s, 'kind-obeyed', where, cp)


def split(rng, mon):
    for _ in range(4):
        p = polygon(rng)
        a, b = seg(rng, p)
        want = pts_of(a, b)
        t = rng.choice((0.5, 0, 1, 0.25, rng.random(), rng.random(), 1e-6, 1-1e-9))
        if t == 0.5 and rng.random() < 0.5:
            l, m, r = bez_split(a, b)
        else:
            l, m, r = bez_split(a, b, t)
        s = mag(want)
        same_seg(mon, pts_of(l, m), want, 0, t, 'split-shape', 'left', a, b)
        same_seg(mon, pts_of(m, r), want, t, 1, 'split-shape', 'right', a, b)
        mon.near(l.dl.xy(), a.dl.xy(), 'outer-handle', a, scale=s)
        mon.near(r.dr.xy(), b.dr.xy(), 'outer-handle', b, scale=s)
        mon.check((l.kind == 'sharp') == (a.kind == 'sharp') and (r.kind == 'sharp') == (b.kind == 'sharp'), 'sharp-kept',
                  a.kind, l.kind, b.kind, r.kind)
        mon.check(m.kind != 'sharp', 'middle-smooth', m.kind)
        for cp, w in ((l, 'l'), (m, 'm'), (r, 'r')):
            obeys(mon, cp, s, (w, t))
        # reversing retraces
        rl, rm, rr = bez_split(b.reversed(), a.reversed(), 1-t)
        same_seg(mon, pts_of(rl, rm), want, 1, t, 'retrace', 'split of reverse', a, b, t)
        same_seg(mon, pts_of(rm, rr), want, t, 0, 'retrace', 'split of reverse', a, b, t)
        if len(set(p)) > 1:
            mon.sig('split', p, t)


def repeated(rng, mon):
    """Split pieces again and again, tracking the parameter range of every piece"""
    a, b = seg(rng)
    want = pts_of(a, b)
    pieces = [(a, b, 0.0, 1.0)]
    for _ in range(rng.randint(2, 12)):
        i = rng.randrange(len(pieces))
        p, q, t0, t1 = pieces[i]
        t = rng.choice((0.5, rng.uniform(0.05, 0.95)))
        l, m, r = bez_split(p, q, t)
        tm = t0 + t*(t1-t0)
        pieces[i:i+1] = [(l, m, t0, tm), (m, r, tm, t1)]
        if rng.random() < 0.3:      # pieces survive a copy
            pieces = [(x.copy(), y.copy(), u, v) for x, y, u, v in pieces]
    for p, q, t0, t1 in pieces:
        same_seg(mon, pts_of(p, q), want, t0, t1, 'split-shape', 'repeated', a, b)
    mon.near(pieces[0][0].dl.xy(), a.dl.xy(), 'outer-handle', scale=mag(want))
    mon.near(pieces[-1][1].dr.xy(), b.dr.xy(), 'outer-handle', scale=mag(want))
    mon.check((pieces[0][0].kind == 'sharp') == (a.kind == 'sharp'), 'sharp-kept', 'repeated')
    mon.sig('rep', want, len(pieces))


def refines(old, new, closed):
    """Is new (list of cp tuples) old with one segment subdivided? Returns index of the subdivided segment or None"""
    so, sn = ref.segs_of(old, closed), ref.segs_of(new, closed)
    if len(sn) != len(so) + 1:
        return None
    s = mag([p for q in so for p in q])
    tol = 1e-8 * s

    def near(p, q):
        return abs(p[0]-q[0]) <= tol and abs(p[1]-q[1]) <= tol

    def same(q, w, t0, t1):
        return all(near(ref.cubic(q, u), ref.cubic(w, t0 + u*(t1-t0))) for u in (0, 0.3, 0.5, 0.8, 1))

    n = len(so)
    for rot in range(n+1) if closed else (0,):
        cand = sn[rot:] + sn[:rot]
        for i in range(n):
            if all(same(cand[j], so[j], 0, 1) for j in range(i)) and \
                    all(same(cand[j+1], so[j], 0, 1) for j in range(i+1, n)):
                w, l, r = so[i], cand[i], cand[i+1]
                d = [(abs(w[1][k]-w[0][k]), (l[1][k]-l[0][k]), (w[1][k]-w[0][k])) for k in (0, 1)]
                d += [(abs(w[2][k]-w[3][k]), (w[2][k]-w[3][k]) - (r[2][k]-r[3][k]), (w[2][k]-w[3][k])) for k in (0, 1)]
                big = max(d)
                ts = ([big[1]/big[2]] if big[0] > 1e-6*s else []) + [0.5]
                if any(-1e-9 <= t <= 1+1e-9 and same(l, w, 0, t) and same(r, w, t, 1) for t in ts):
                    return i
    return None


def add_one(rng, mon):
    closed = rng.random() < 0.5
    n = gen.some(rng, 2, 6, 40)
    k = rng.random()
    if k < 0.7:
        cps = gen.cps(rng, n)
    elif k < 0.85:      # several equally long segments
        cps = gen.blob(rng, n=max(n, 3))
    else:               # coincident centres
        cps = [gen.control_point(rng, center=Point(*c)) for c in [gen.xy(rng)] * n]
    e = ElemCurve('c', PenBrush('red'), cps, closed=closed, xform=gen.transform(rng))
    xf, kinds = gen.aff_of(e.xform), [cp.kind for cp in cps]
    steps = rng.randint(1, 8)
    old = [gen.cp_tuple(cp) for cp in e.control_points]
    first, last = old[0][0], old[-1][0]
    for i in range(steps):
        sharp = sorted(cp.c.xy() for cp in e.control_points if cp.kind == 'sharp')
        e.add_one()
        new = [gen.cp_tuple(cp) for cp in e.control_points]
        mon.check(len(new) == len(old)+1, 'add-one-count', i, len(old), len(new))
        mon.check(refines(old, new, closed) is not None, 'add-one-shape', 'step', i, closed, old, new)
        now = sorted(cp.c.xy() for cp in e.control_points if cp.kind == 'sharp')
        mon.check(len(now) == len(sharp), 'sharp-kept', 'add_one', kinds)
        mon.near([v for p in now for v in p], [v for p in sharp for v in p], 'sharp-kept', 'add_one', scale=100)
        if not closed:
            mon.near(new[0][0] + new[-1][0], first + last, 'open-ends', closed, scale=100)
        old = new
    mon.check(e.closed == closed and gen.aff_of(e.xform) == xf, 'add-one-rest')
    mon.sig('add', closed, old)


def reverse(rng, mon):
    cps = gen.cps(rng, gen.some(rng, 1, 6, 40))
    closed = rng.random() < 0.5
    rev = ControlPoint.reverse_list(cps)
    mon.check(len(rev) == len(cps), 'retrace-count')
    so, sr = (ref.segs_of([gen.cp_tuple(cp) for cp in c], closed) for c in (cps, rev))
    n = len(so)
    # closed: reversed list starts at the last point; segment j of the reverse is segment n-2-j of the original (mod n)
    for j in range(n):
        w = so[(n-2-j) % n] if closed else so[n-1-j]
        mon.near([v for p in sr[j] for v in p], [v for p in reversed(w) for v in p], 'retrace', closed, j, cps, scale=100)
    mon.check([cp.kind for cp in rev] == [cp.kind for cp in reversed(cps)], 'retrace-kind')
    twice = ControlPoint.reverse_list(rev)
    mon.near([v for cp in twice for q in gen.cp_tuple(cp) for v in q], [v for cp in cps for q in gen.cp_tuple(cp) for v in q],
             'retrace', 'twice')
    mon.sig('rev', closed, so)


def path(rng, mon):
    cps = gen.cps(rng, rng.choice((0, 1, 2, 3, 4, 6))) if rng.random() < 0.95 else []
    closed = rng.random() < 0.5
    n = rng.choice((1, 2, 5, 20, rng.randint(1, 40), rng.randint(40, 150)))
    m = gen.transform(rng)
    a = gen.aff_of(m)
    mcps = [cp.transform(m) for cp in cps]
    tuples = [gen.cp_tuple(cp) for cp in cps]
    segs = ref.segs_of(tuples, closed) if cps else []
    want = []
    for i, s in enumerate(segs):
        q = [ref.aff(a, p) for p in s]
        want += [ref.cubic(q, k/n) for k in range(1 if i else 0, n+1)]
    s = mag([ref.aff(a, p) for q in segs for p in q] + [p for q in segs for p in q])
    got = bez_path(m, cps, closed, steps=n)
    mon.check(len(got) == 2*len(want), 'bez-path', 'length', len(got), len(want), closed, n)
    mon.near(list(got), [v for p in want for v in p], 'bez-path', cps, a, closed, n, scale=s)
    first = bez_path(Transform(), mcps, closed, steps=n)
    mon.near(list(first), list(got), 'commute', cps, a, closed, n, scale=s)
    # evaluation commutes too
    for p in segs[:2]:
        q = bez(m.transform_pts([Point(*v) for v in p]), steps=n, as_xy=True)
        w = [ref.aff(a, v) for v in bez([Point(*v) for v in p], steps=n, as_xy=True)]
        mon.near([v for u in q for v in u], [v for u in w for v in u], 'commute', 'bez', scale=s)
    mon.check(bez_path(m, [], closed) == [], 'bez-path', 'empty')
    # splitting commutes
    if len(cps) > 1:
        t = rng.random()
        l1 = bez_split(cps[0].transform(m), cps[1].transform(m), t)
        l2 = [cp.transform(m) for cp in bez_split(cps[0], cps[1], t)]
        mon.near([v for cp in l1 for u in gen.cp_tuple(cp) for v in u], [v for cp in l2 for u in gen.cp_tuple(cp) for v in u],
                 'commute', 'split', t, scale=s)
    mon.sig('path', closed, n, tuples)


KINDS = [(evaluate, 6000, 40000), (split, 8000, 50000), (repeated, 3200, 20000), (add_one, 3200, 20000), (reverse, 3200, 20000),
         (path, 4800, 30000)]
