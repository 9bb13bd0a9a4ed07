"""C11: self-intersection splitting preserves the outline and its inputs."""
import itertools
import math

import bezier
import numpy as np

from x7.geom.geom import Point, Vector
from x7.geom.bezier import ControlPoint, bez_self_intersect
from x7.geom.model import ElemCurve
from monlib import gen, ref, snap
from monlib.runner import SkipCase
from props.c10 import finder, newton

TECHNIQUE = 'runtime monitoring: conservation oracle (signed area, length, coverage) plus independent crossing finder'
RULE = ('closed curves with 2-7 control points (random, star-like order, figure-of-eight, single-segment loops, simple outlines) '
        'are decomposed; area, length, coverage, crossing points and the input are compared with independent computations. '
        'Non-trivial: the curve crosses itself; distinct by control polygon.')
ASSUMPTIONS = ['supported crossings: between different segments, or between the two halves of one segment',
               'curves with tangential, nearly coincident or end-point crossings, and curves the external solver declines '
               '(observed by a hook on that solver) are outside the property',
               'outlines at 2^-12 to 2^12 times the usual size are judged by comparing with the usual size',
               'area and coverage to 1e-5 of the curve size; length to 3e-4 (polyline approximation on both sides)']
REQUIRED = {'scaled': 6000, 'area': 400, 'covered-once': 400, 'pieces-of-outline': 400, 'input-kept': 1000, 'empty-when-simple': 210,
            'crossing-split': 400, 'kinds': 10000, 'doubled-point': 140}

N = 24
_declined = [0]
_real = bezier.Curve.intersect


def _hook(self, *args, **kwargs):
    try:
        return _real(self, *args, **kwargs)
    except NotImplementedError:
        _declined[0] += 1
        raise


def segs(cps):
    return ref.segs_of([gen.cp_tuple(cp) for cp in cps], True)


def samples(cps, n=N):
    return np.array([ref.cubic(s, i/n) for s in segs(cps) for i in range(n)])


def length(cps, n=120):
    total = 0.0
    for s in segs(cps):
        p = [ref.cubic(s, i/n) for i in range(n+1)]
        total += sum(math.dist(a, b) for a, b in zip(p, p[1:]))
    return total


def dist_to(pts, poly):
    """Distances of points to a closed polyline (numpy)"""
    a, b = poly, np.roll(poly, -1, axis=0)
    d = b - a
    dd = np.maximum((d*d).sum(1), 1e-300)
    out = []
    for i in range(0, len(pts), 200):
        w = pts[i:i+200, None, :] - a[None]
        t = np.clip((w*d[None]).sum(2)/dd[None], 0, 1)
        r = w - t[..., None]*d[None]
        out.append(np.sqrt((r*r).sum(2)).min(1))
    return np.concatenate(out)


def crossings(cps):
    """All self crossings [(i, s, j, t)] of a closed curve, and whether all are clean and supported"""
    ss = segs(cps)
    n = len(ss)
    out = []
    clean = True
    for i, j in itertools.combinations(range(n), 2):
        for s, t in finder(ss[i], ss[j], 30):
            joint = (j == i+1 and s > 1-1e-6 and t < 1e-6) or (i == 0 and j == n-1 and s < 1e-6 and t > 1-1e-6) or \
                (n == 2 and ((s < 1e-6 and t > 1-1e-6) or (s > 1-1e-6 and t < 1e-6)))
            if not joint and -0.02 < s < 1.02 and -0.02 < t < 1.02:
                out.append((i, s, j, t))
    for i in range(n):
        p = ss[i]
        m = 16
        for a in range(m):
            for b in range(a+2, m):
                r = newton(p, p, (a+.5)/m, (b+.5)/m)
                if r and r[1]-r[0] > 1e-3 and -0.02 < r[0] < 1.02 and -0.02 < r[1] < 1.02 and \
                        not any(o[0] == o[2] == i and abs(o[1]-r[0]) < 1e-6 for o in out):
                    out.append((i, r[0], i, r[1]))
    pts = []
    for i, s, j, t in out:
        if not (0.01 < s < 0.99 and 0.01 < t < 0.99):
            clean = False
        da, db = ref.cubic_d(ss[i], s), ref.cubic_d(ss[j], t)
        la, lb = math.hypot(*da), math.hypot(*db)
        if la < 0.1 or lb < 0.1 or abs(da[0]*db[1]-da[1]*db[0])/(la*lb) < 0.05:
            clean = False
        if i == j and not (s < 0.48 and t > 0.52):
            clean = False
        pts.append(ref.cubic(ss[i], s))
    for a, b in itertools.combinations(pts, 2):
        if math.dist(a, b) < 0.05:
            clean = False
    # nearly touching parts and cusps are unclear
    return out, pts, clean


def passes(cps, q, tol):
    """Places (segment + parameter) where the closed outline passes within tol of q"""
    ss = segs(cps)
    n, m = len(ss), 200
    found = []
    for i, g in enumerate(ss):
        d = [math.dist(ref.cubic(g, k/m), q) for k in range(m+1)]
        for k in range(m+1):
            if d[k] > d[max(k-1, 0)] or d[k] > d[min(k+1, m)]:
                continue
            lo, hi = max(k-1, 0)/m, min(k+1, m)/m
            for _ in range(90):
                a, b = lo + (hi-lo)*0.382, lo + (hi-lo)*0.618
                if math.dist(ref.cubic(g, a), q) < math.dist(ref.cubic(g, b), q):
                    hi = b
                else:
                    lo = a
            t = (lo+hi)/2
            if math.dist(ref.cubic(g, t), q) < tol and \
                    all(min((i+t-f) % n, (f-i-t) % n) > 1e-5 for f in found):
                found.append(i + t)
    return found


def missed(cps, result, pts, s):
    """Real crossings used by the result that the finder of this module did not see (folds right at a corner)"""
    new = [c[0].c.xy() for c in result if not any(math.dist(c[0].c.xy(), q) < 1e-5*s for q in pts)]
    return bool(new) and all(len(passes(cps, q, 1e-7*s)) >= 2 for q in new)


def cusp(cps):
    for s in segs(cps):
        v = [math.hypot(*ref.cubic_d(s, i/20)) for i in range(21)]
        if min(v) < 0.02*max(v) or folded(s):
            return True
    return False


def folded(s):
    """A segment that runs back over itself on (nearly) a line"""
    far = max(s, key=lambda p: math.dist(p, s[0]))
    size = math.dist(far, s[0])
    if not size:
        return False
    ux, uy = (far[0]-s[0][0])/size, (far[1]-s[0][1])/size
    if max(abs(ux*(p[1]-s[0][1]) - uy*(p[0]-s[0][0])) for p in s) > 0.05 + 0.002*size:
        return False
    along = [ux*p[0] + uy*p[1] for p in (ref.cubic(s, i/40) for i in range(41))]
    return any(b < a for a, b in zip(along, along[1:])) and any(b > a for a, b in zip(along, along[1:]))


def near_touch(cps, cross):
    """Parts of the curve that come close without a crossing nearby: a solver may see either"""
    p = samples(cps, 40)
    step = np.sqrt(((p - np.roll(p, -1, axis=0))**2).sum(1))
    n = len(p)
    d = np.sqrt(((p[:, None]-p[None])**2).sum(2))
    idx = np.arange(n)
    gap = np.minimum((idx[:, None]-idx[None]) % n, (idx[None]-idx[:, None]) % n)
    lim = 0.3*np.minimum(step[:, None], step[None]).max() * 0 + 0.05
    bad = (gap > 3) & (d < lim)
    for i, j in np.argwhere(bad):
        if not any(math.dist(p[i], c) < 2.5*max(step) for c in cross):
            return True
    return False


def make(rng):
    gen.usual(rng)
    k = rng.random()
    if rng.random() < 0.04:     # many segments, which cross only here and there
        cps = gen.poly_cps(rng, n=rng.randint(8, 24)) if k < 0.7 else gen.blob(rng, n=rng.randint(8, 16))
        for i in rng.sample(range(0, len(cps)-1, 3), rng.randint(1, 2)):
            cps[i], cps[i+1] = cps[i+1], cps[i]
        return cps
    if k < 0.35:
        return gen.cps(rng, gen.some(rng, 2, 5, 9), 60)
    if k < 0.5:
        return gen.blob(rng, ccw=rng.random() < 0.5)
    if k < 0.72:
        cps = gen.blob(rng, n=rng.choice((4, 5, 5, 6, 7)))
        rng.shuffle(cps)
        return cps
    if k < 0.85:        # straight star polygons
        cps = gen.poly_cps(rng, n=rng.choice((4, 5, 5, 6)))
        rng.shuffle(cps)
        return cps
    if k < 0.93:        # one segment with a loop of its own: handles cross over
        d, h, w = rng.uniform(5, 20), rng.uniform(40, 90), rng.uniform(30, 70)
        a, b = Point(-d, 0), Point(d, 0)
        sk = rng.uniform(-5, 5)
        return [ControlPoint(a, Vector(0, -20), Vector(w+d, h+sk), 'sharp'),
                ControlPoint(b, Vector(-w-d, h), Vector(0, -20), 'sharp')] + \
            ([ControlPoint(Point(0, -50), Vector(15, 0), Vector(-15, 0), 'smooth')] if rng.random() < 0.5 else [])
    x, y = rng.uniform(20, 60), rng.uniform(20, 80)      # figure of eight
    return [ControlPoint(Point(-x, rng.uniform(-5, 5)), Vector(0, -y), Vector(0, y), 'smooth'),
            ControlPoint(Point(x, rng.uniform(-5, 5)), Vector(0, -y), Vector(0, y), 'smooth')]


def doubled(rng, cps):
    """The same outline with a point given twice in a row (a segment of length zero), as drawing tools export it"""
    out = []
    k = rng.randrange(len(cps))
    for i, cp in enumerate(cps):
        if i == k:
            out.extend([ControlPoint(cp.c.copy(), cp.dl.copy(), Vector(0, 0), 'sharp'),
                        ControlPoint(cp.c.copy(), Vector(0, 0), cp.dr.copy(), 'sharp')])
        else:
            out.append(cp)
    return out


def verify(mon, cps, result, cross, pts, clean):
    """result: list of closed control point lists"""
    s = max([1.0] + [abs(v) for sg in segs(cps) for p in sg for v in p])
    total = sum(ref.cubic_area(g) for g in segs(cps))
    obeying = all(cp.kind == 'sharp' or not (cp.dl and cp.dr) or
                  (abs(cp.dl.cross(cp.dr)) < 1e-9*cp.dl.length()*cp.dr.length() and cp.dl.dot(cp.dr) < 0) for cp in cps)
    mon.count('kinds-judged' if obeying else 'kinds-not-judged')
    mon.near(sum(ref.cubic_area(g) for c in result for g in segs(c)), total, 'area', cps, scale=s*s, rel=1e-5)
    mon.near(sum(length(c) for c in result), length(cps), 'covered-once', 'length', cps, rel=3e-4, scale=s)
    # smooth points stay smooth in the result, corners at crossings say so
    for cp in (cp for c in result for cp in c):
        mon.check(cp.kind in gen.KINDS, 'kinds', cp)
        a, b = cp.dl.xy(), cp.dr.xy()
        la, lb = math.hypot(*a), math.hypot(*b)
        if cp.kind != 'sharp' and la > 1e-6*s and lb > 1e-6*s and obeying:
            mon.near((a[0]*b[1] - a[1]*b[0])/(la*lb), 0, 'kinds', 'bent smooth point', cp, cps, rel=1e-5)
            mon.check(a[0]*b[0] + a[1]*b[1] < 0, 'kinds', 'folded smooth point', cp, cps)
    fine = samples(cps, 200)
    tol = 2e-4*s + 1e-6
    for c in result:
        mon.check(len(c) >= 1, 'closed', len(c))
        d = dist_to(samples(c, 12), fine)
        mon.check(float(d.max()) < tol, 'pieces-of-outline', float(d.max()), cps, c)
        start = c[0].c.xy()
        if clean:
            mon.check(any(math.dist(start, q) < 1e-5*s for q in pts), 'starts-at-crossing', start, pts, cps)
    order = [samples(c, 60) for c in result]
    orig = samples(cps, 10)
    best = np.min([dist_to(orig, o) for o in order], axis=0)
    mon.check(float(best.max()) < 5e-3*s, 'covered-once', 'uncovered part', float(best.max()), cps)
    if clean:
        centers = [[cp.c.xy() for cp in c] for c in result]
        for q in pts:
            hits = sum(1 for c in centers for x in c if math.dist(x, q) < 1e-5*s)
            mon.check(hits == 2, 'crossing-split', q, hits, centers, cps)
            mon.check(all(sum(1 for x in c if math.dist(x, q) < 1e-5*s) <= 1 for c in centers), 'simple-loops', q, cps)


def scaled(mon, cps, result, f):
    """The same outline at another size (by a power of two, so that every number scales exactly) splits the same way"""
    def at(cp):
        return ControlPoint(Point(*[v*f for v in cp.c.xy()]), Vector(*[v*f for v in cp.dl.xy()]), Vector(*[v*f for v in cp.dr.xy()]), cp.kind)
    other = bez_self_intersect([at(cp) for cp in cps])
    s = max(1.0, *(abs(v) for g in segs(cps) for p in g for v in p))*f
    mon.check([len(c) for c in other] == [len(c) for c in result], 'scaled', 'loops', f, cps, other)
    for c, d in zip(result, other):
        for p, q in zip(c, d):
            for u, v in zip(gen.cp_tuple(at(p)), gen.cp_tuple(q)):
                mon.check(math.dist(u, v) < 1e-6*s, 'scaled', 'place', f, p, q, cps)
            mon.check(p.kind == q.kind, 'scaled', 'kind', f, p, q)


def split(rng, mon):
    cps = make(rng)
    k = rng.random()
    if k < 0.2:         # anywhere, any orientation
        m = gen.transform(rng)
        cps = [cp.transform(m) for cp in cps]
    if k < 0.1:
        cps = ControlPoint.reverse_list(cps)
    cross, pts, clean = crossings(cps)
    clean = clean and not cusp(cps) and not near_touch(cps, pts)
    plain = cps
    if rng.random() < 0.15:
        cps = doubled(rng, cps)
        mon.count('doubled-point')
    before = snap.snap(cps)
    idents = [(id(cp), id(cp.c), id(cp.dl), id(cp.dr)) for cp in cps]
    _declined[0] = 0
    bezier.Curve.intersect = _hook
    try:
        result = bez_self_intersect(cps)
    except (ValueError, NotImplementedError, ZeroDivisionError) as err:
        mon.check(snap.snap(cps) == before, 'input-kept', 'after refusal')
        if not clean or _declined[0]:
            mon.count('refused')
            raise SkipCase()
        raise err
    finally:
        bezier.Curve.intersect = _real
    mon.check(snap.snap(cps) == before, 'input-kept', cps)
    mon.check([(id(cp), id(cp.c), id(cp.dl), id(cp.dr)) for cp in cps] == idents, 'input-kept', 'identity')
    if _declined[0]:
        mon.count('declined')
        raise SkipCase()
    if clean and result and missed(plain, result, pts, max(abs(v) for g in segs(plain) for p in g for v in p)):
        mon.count('fold-at-corner')
        clean = False
    if clean and not cross:
        mon.check(result == [], 'empty-when-simple', cps, result)
    if clean and cross:
        mon.check(len(result) >= 2, 'found', cps, cross)
        mon.sig(snap.snap(cps))
    if result:
        verify(mon, cps, result, cross, pts, clean)
        if clean and cross and rng.random() < 0.3:
            scaled(mon, cps, result, 2.0**rng.choice((-12, -9, -6, -3, 3, 6, 9, 12)))
        # result is independent of the input
        for c in result:
            for cp in c:
                cp.c = Point(0, 0)
                cp.dl = cp.dr = Vector(1, 1)
        mon.check(snap.snap(cps) == before, 'input-kept', 'editing the result')
        # and asking again gives the same answer
        if rng.random() < 0.1:
            again = bez_self_intersect(cps)
            mon.check(len(again) == len(result), 'repeatable', len(again), len(result))


def element(rng, mon):
    """ElemCurve.self_intersect works on what the element draws"""
    import matplotlib.pyplot as plt
    cps = make(rng)
    pb = gen.penbrush(rng)
    e = ElemCurve(gen.name(rng), pb, cps, closed=True, xform=gen.transform(rng, 'similar'))
    world = [cp.transform(e.xform) for cp in cps]
    cross, pts, clean = crossings(world)
    if rng.random() < 0.2:
        e.control_points = doubled(rng, cps)
    if not clean or cusp(world) or near_touch(world, pts):
        raise SkipCase()
    before = snap.snap(e)
    _declined[0] = 0
    bezier.Curve.intersect = _hook
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        result = e.self_intersect()
    finally:
        bezier.Curve.intersect = _real
        plt.show = show
        plt.close('all')
    if _declined[0]:
        raise SkipCase()
    mon.check(snap.snap(e) == before, 'input-kept', 'element')
    if result and missed(world, [[cp.transform(c.xform) for cp in c.control_points] for c in result], pts,
                         max(abs(v) for g in segs(world) for p in g for v in p)):
        raise SkipCase()
    if not cross:
        mon.check(result == [], 'empty-when-simple', 'element')
        return
    mon.check(len(result) >= 2 and all(isinstance(c, ElemCurve) for c in result), 'found', 'element', cross)
    mon.check(len({c.name for c in result}) == len(result) and all(c.name.startswith(e.name) for c in result), 'names')
    mon.check(all(c.closed is True and c.penbrush == pb for c in result), 'style-kept')
    drawn = [[cp.transform(c.xform) for cp in c.control_points] for c in result]
    verify(mon, world, drawn, cross, pts, clean)
    mon.sig('elem', snap.snap(e))


KINDS = [(split, 2600, 40000), (element, 60, 800)]
