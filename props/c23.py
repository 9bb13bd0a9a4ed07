"""C23: vector fields interpolate the values on their mesh."""
import bisect
import math
import random

import numpy as np
from x7.geom.geom import Point, BBox, PointRelative, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.vec_field import Mesh, VectorField
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: look-ups and transforms compared with an independent bilinear interpolation, under edits and copies'
RULE = ('random meshes (square, rectangular, offset, tiny, large boxes; 2 to 9 steps, sometimes up to 48) with random, constant, linear and sparse '
        'values; look-ups at nodes, edges, cells; points moved through every interface; derived fields compared value by value '
        'with plain Python; originals and results edited afterwards. Distinct by mesh and values.')
ASSUMPTIONS = ['normalising and smoothing need a field that is not zero everywhere']
REQUIRED = {'new-arrays': 300, 'mesh': 1100, 'outside': 1500, 'node': 8000, 'between': 6000, 'linear': 900, 'moves': 4000, 'quiver': 500, 'copy': 600, 'scaled': 600,
            'normalized': 500, 'smoothed': 1200, 'uniform': 400, 'unchanged': 1500, 'width': 300, 'equality': 1000}


def random_mesh(rng, max_steps=7):
    k = rng.random()
    x, y = rng.choice((0, -10, rng.uniform(-100, 100))), rng.choice((0, -10, rng.uniform(-100, 100)))
    w = rng.choice((1, 20, rng.uniform(0.01, 200)))
    h = w if k < 0.3 else rng.choice((1, 20, 40, rng.uniform(0.01, 200)))
    steps = gen.some(rng, 2, max_steps, 48, 0.02)
    box = (x, y, x+w, y+h)
    arg = BBox(*box) if rng.random() < 0.7 else BBox(x+w, y+h, x, y)
    return Mesh(arg, steps), box, steps


def nodes(box, n):
    return ([box[0] + (box[2]-box[0])*i/(n-1) for i in range(n)], [box[1] + (box[3]-box[1])*i/(n-1) for i in range(n)])


def fill(rng, n, xs, ys, kind=None):
    """n x n values [(vx, vy)...] indexed by x then y"""
    kind = kind or rng.choice(('random', 'random', 'constant', 'linear', 'sparse', 'big'))
    if kind == 'constant':
        v = rng.uniform(-5, 5), rng.uniform(-5, 5)
        return kind, [[v]*n for _ in range(n)]
    if kind == 'linear':
        a, b, c, d, e, f = (rng.uniform(-2, 2) for _ in range(6))
        return kind, [[(a*x + b*y + c, d*x + e*y + f) for y in ys] for x in xs]
    if kind == 'sparse':
        out = [[(0.0, 0.0)]*n for _ in range(n)]
        out[rng.randrange(n)][rng.randrange(n)] = (rng.uniform(1, 5), rng.uniform(-5, 5))
        return kind, out
    s = 1e6 if kind == 'big' else 3
    return kind, [[(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(n)] for _ in range(n)]


def field(rng, max_steps=7, kind=None):
    mesh, box, n = random_mesh(rng, max_steps)
    xs, ys = nodes(box, n)
    kind, vals = fill(rng, n, xs, ys, kind)
    k = rng.random()
    if k < 0.5:
        vf = VectorField(mesh, np.array([[v[0] for v in row] for row in vals], dtype=float),
                         np.array([[v[1] for v in row] for row in vals], dtype=float))
    else:
        vf = mesh.zeros() if k < 0.8 else VectorField(mesh)
        for i in range(n):
            for j in range(n):
                vf.vx[i, j], vf.vy[i, j] = vals[i][j]
    return vf, box, n, xs, ys, vals, kind


def blend(xs, ys, vals, x, y):
    i = min(max(bisect.bisect_right(xs, x) - 1, 0), len(xs)-2)
    j = min(max(bisect.bisect_right(ys, y) - 1, 0), len(ys)-2)
    s, t = (x-xs[i])/(xs[i+1]-xs[i]), (y-ys[j])/(ys[j+1]-ys[j])
    out = []
    for k in (0, 1):
        lo = vals[i][j][k]*(1-s) + vals[i+1][j][k]*s
        hi = vals[i][j+1][k]*(1-s) + vals[i+1][j+1][k]*s
        out.append(lo*(1-t) + hi*t)
    return out


def size_of(vals):
    return max(1e-300, max(max(abs(v[0]), abs(v[1])) for row in vals for v in row))


def inner(rng, box):
    """A point inside the box (as computed, the upper edges may not be hit exactly)"""
    fx, fy = (rng.choice((0, 1, 0.5, rng.random(), rng.random(), rng.random())) for _ in 'xy')
    x, y = box[0] + (box[2]-box[0])*fx, box[1] + (box[3]-box[1])*fy
    return min(x, box[2]), min(y, box[3])


def outer(rng, box):
    """A point outside the box, up to twice its size away"""
    w, h = box[2]-box[0], box[3]-box[1]
    p = [box[0] + w*rng.random(), box[1] + h*rng.random()]
    for k in rng.choice(((0,), (1,), (0, 1))):
        far = (w, h)[k]*rng.choice((0.01, 0.5, 2))*rng.random()
        p[k] = box[k] - far if rng.random() < 0.5 else box[k+2] + far
    return tuple(p)


def meshes(rng, mon):
    mesh, box, n = random_mesh(rng, 9)
    xs, ys = nodes(box, n)
    mon.check(mesh.steps == n and tuple(mesh.bbox.as_tuple()) == box, 'mesh', mesh.bbox, box)
    mon.near([float(v) for v in mesh.coord_x], xs, 'mesh', 'x', scale=400)
    mon.near([float(v) for v in mesh.coord_y], ys, 'mesh', 'y', scale=400)
    zero = mesh.zeros()
    p = inner(rng, box)
    mon.near([float(v) for v in zero.lookup(*p)], (0, 0), 'node', 'zeros')
    mon.check(zero.mesh == mesh, 'mesh')
    same, other = Mesh(BBox(*box), n), Mesh(BBox(box[0], box[1], box[2]+1, box[3]), n)
    mon.check(mesh == same and not mesh == other and not mesh == Mesh(BBox(*box), n+1) and mesh != 'mesh', 'equality', mesh.bbox)
    mag = rng.choice((1, 0.25, 10, 3.5))
    state = random.getstate()
    random.seed(rng.random())
    u, u2 = mesh.uniform(mag), mesh.uniform(mag)
    random.setstate(state)
    vals = [float(v) for a in (u.vx, u.vy) for v in np.asarray(a).flatten()]
    mon.check(len(vals) == 2*n*n and all(abs(v) <= mag for v in vals), 'uniform', mag, vals)
    mon.check(len(set(vals)) == len(vals) and max(vals) > min(vals), 'uniform', 'not random')
    mon.check(n < 4 or max(abs(v) for v in vals) > mag*0.3, 'uniform', 'too small')
    mon.check(u != u2, 'equality', 'uniform fields')
    mon.sig('mesh', box, n)


def lookups(rng, mon):
    vf, box, n, xs, ys, vals, kind = field(rng)
    s = size_of(vals)
    before = snap.snap(vf)

    def look(p, name, *detail):
        got = [float(v) for v in vf.lookup(*p)]
        # rounding of the node coordinates is magnified by the slope of the field
        slack = 1e-12*s*(1 + max(abs(v) for v in box)*n/min(box[2]-box[0], box[3]-box[1]))
        mon.near(got, blend(xs, ys, vals, *p), name, p, box, n, kind, *detail, scale=s + slack/1e-9)

    order = [(i, j) for i in range(n) for j in range(n)]
    rng.shuffle(order)
    for i, j in order[:16]:
        look((float(vf.mesh.coord_x[i]), float(vf.mesh.coord_y[j])), 'node')
    for _ in range(8):
        look(inner(rng, box), 'between')
    for _ in range(3):
        # beyond the mesh the outermost cells continue
        p = outer(rng, box)
        lx, ly = (max(1, 3*n*(max(box[k]-p[k], p[k]-box[k+2], 0)/(box[k+2]-box[k]) + 1)) for k in (0, 1))
        got = [float(v) for v in vf.lookup(*p)]
        slack = 1e-12*(1 + max(abs(v) for v in box)*n/min(box[2]-box[0], box[3]-box[1]))
        mon.near(got, blend(xs, ys, vals, *p), 'outside', p, box, n, kind, scale=s*lx*ly*(1 + slack/1e-9))
        mon.near(vf.transform_pt(Point(*p)).xy(), [a+b for a, b in zip(p, got)], 'moves', 'outside', p, scale=s*lx*ly + 1e3)
    if kind == 'linear':
        # exact everywhere, not only at nodes
        for _ in range(6):
            p, q = inner(rng, box), inner(rng, box)
            t = rng.random()
            m = (p[0] + t*(q[0]-p[0]), p[1] + t*(q[1]-p[1]))
            a, b, c = ([float(v) for v in vf.lookup(*x)] for x in (p, q, m))
            mon.near(c, [u + t*(v-u) for u, v in zip(a, b)], 'linear', p, q, t, scale=s*1e3)
    if kind == 'constant':
        mon.near([float(v) for v in vf.lookup(*inner(rng, box))], vals[0][0], 'linear', 'constant', scale=s)
    # many at once
    pts = [inner(rng, box) for _ in range(gen.some(rng, 1, 5, 40))]
    gx, gy = vf.interp_coords(np.array(pts))
    mon.near([float(v) for v in list(gx) + list(gy)], [blend(xs, ys, vals, *p)[k] for k in (0, 1) for p in pts], 'between',
             'interp_coords', scale=s*1e4)
    mon.check(snap.snap(vf) == before, 'unchanged')
    # values edited in place are found by later look-ups
    for _ in range(3):
        i, j = rng.randrange(n), rng.randrange(n)
        v = rng.uniform(-s, s), rng.uniform(-s, s)
        vf.vx[i, j], vf.vy[i, j] = v
        vals[i] = list(vals[i])
        vals[i][j] = v
        look((float(vf.mesh.coord_x[i]), float(vf.mesh.coord_y[j])), 'node', 'edited')
        look(inner(rng, box), 'between', 'edited')
    # ... and so are new arrays
    if rng.random() < 0.3:
        new = [[(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(n)] for _ in range(n)]
        part = rng.choice(('both', 'x', 'y'))
        if part != 'y':
            vf.vx = np.array([[v[0] for v in row] for row in new])
        if part != 'x':
            vf.vy = np.array([[v[1] for v in row] for row in new])
        vals = [[(v[0] if part != 'y' else o[0], v[1] if part != 'x' else o[1]) for v, o in zip(row, old)] for row, old in zip(new, vals)]
        look(inner(rng, box), 'between', 'new arrays', part)
        look(inner(rng, box), 'between', 'new arrays', part)
        mon.count('new-arrays')
    mon.sig('lookup', box, n, kind, vals)
    mon.sample(box, n, kind)


def moves(rng, mon):
    vf, box, n, xs, ys, vals, kind = field(rng, kind=rng.choice(('random', 'linear', 'constant')))
    s = size_of(vals) * 1e4 + 400
    before = snap.snap(vf)
    pts = [inner(rng, box) for _ in range(gen.some(rng, 1, 5, 40))]
    want = []
    for p in pts:
        v = blend(xs, ys, vals, *p)
        want.append((p[0]+v[0], p[1]+v[1]))
    flat = [v for p in want for v in p]
    for p, w in zip(pts, want):
        mon.near([float(v) for v in vf.transform(*p)], w, 'moves', 'transform', scale=s)
        point = Point(*p)
        got = vf.transform_pt(point)
        mon.check(isinstance(got, Point), 'moves', type(got))
        mon.near(got.xy(), w, 'moves', 'transform_pt', scale=s)
        mon.near([float(v) for v in vf.transform_pt(point, as_pt=False)], w, 'moves', 'as_pt', scale=s)
        rel = PointRelative(3, 4, Point(p[0]-3, p[1]-4))
        mon.near(vf.transform_pt(rel).xy(), w, 'moves', 'relative', scale=s)
        mon.check(point.xy() == p, 'unchanged', point)
        lx, ly = vf.lookup(*p)
        mon.near((p[0]+float(lx), p[1]+float(ly)), w, 'moves', 'lookup', scale=s)
    got = vf.transform_pts(pts)
    mon.check(len(got) == len(pts) and all(isinstance(g, tuple) and len(g) == 2 for g in got), 'moves', got)
    mon.near([float(v) for g in got for v in g], flat, 'moves', 'tuples', scale=s)
    got = vf.transform_pts([Point(*p) for p in pts])
    mon.check(len(got) == len(pts) and all(isinstance(g, Point) for g in got), 'moves', got)
    mon.near([v for g in got for v in g.xy()], flat, 'moves', 'points', scale=s)
    for arg in (pts, [Point(*p) for p in pts]):
        got = vf.transform_pts(arg, True)
        mon.near([float(v) for v in got], flat, 'moves', 'flat', scale=s)
    # control points move with the field
    cps = [ControlPoint(Point(*p), Vector(), Vector(), 'sharp') for p in pts]
    out = [cp.transform(vf) for cp in cps]
    mon.near([v for cp in out for v in cp.c.xy()], flat, 'moves', 'control points', scale=s)
    mon.check(snap.snap(vf) == before, 'unchanged', 'moves')
    # widths
    zero = Mesh(BBox(-50, -50, 50, 50), 3)
    c = rng.uniform(-9, 9), rng.uniform(-9, 9)
    shift = VectorField(zero, np.full((3, 3), c[0]), np.full((3, 3), c[1]))
    w = rng.uniform(0, 20)
    mon.near(float(shift.transform_width(w)), w, 'width', c, scale=20)
    f = rng.uniform(-0.5, 2)
    grow = VectorField(zero, np.array([[f*x]*3 for x in (-50, 0, 50)]), np.array([[f*y for y in (-50, 0, 50)]]*3))
    mon.near(float(grow.transform_width(w)), abs(1+f)*w, 'width', f, scale=20)
    mon.sig('moves', box, n, vals)


class Axes(object):
    def quiver(self, x, y, u, v, **kw):
        self.args = [np.asarray(a) for a in (x, y, u, v)]


def quiver(rng, mon):
    vf, box, n, xs, ys, vals, kind = field(rng)
    ax = Axes()
    vf.quiver(ax)
    x, y, u, v = [[float(k) for k in a.flatten()] for a in ax.args]
    mon.check(len(x) == len(y) == len(u) == len(v) == n*n, 'quiver', len(x))
    seen = set()
    s = size_of(vals)
    for a, b, c, d in zip(x, y, u, v):
        i = min(range(n), key=lambda k: abs(xs[k]-a))
        j = min(range(n), key=lambda k: abs(ys[k]-b))
        seen.add((i, j))
        mon.near((a, b), (xs[i], ys[j]), 'quiver', 'node', scale=400)
        mon.near((c, d), vals[i][j], 'quiver', 'value', i, j, scale=s)
    mon.check(len(seen) == n*n, 'quiver', 'nodes', len(seen))
    mon.sig('quiver', box, n, vals)


def derived(rng, mon):
    vf, box, n, xs, ys, vals, kind = field(rng, max_steps=8)
    s = size_of(vals)
    if rng.random() < 0.5:
        vf.lookup(*inner(rng, box))
    before = snap.snap(vf)

    def values(f):
        return [[(float(f.vx[i, j]), float(f.vy[i, j])) for j in range(n)] for i in range(n)]

    def flat(v):
        return [k for row in v for p in row for k in p]

    # copies
    dup = vf.copy()
    mon.check(dup == vf and not (dup != vf) and dup is not vf and dup.mesh == vf.mesh and flat(values(dup)) == flat(vals), 'copy')
    i, j = rng.randrange(n), rng.randrange(n)
    dup.vx[i, j] += 7*s
    mon.check(snap.snap(vf) == before, 'copy', 'edit of the copy')
    mon.check(dup != vf, 'equality', 'after edit')
    dup2 = vf.copy()
    dup2.vy[i, j] += 7*s
    mon.check(dup2 != vf, 'equality', 'after edit of y')
    p = float(vf.mesh.coord_x[i]), float(vf.mesh.coord_y[j])
    mon.near([float(v) for v in vf.lookup(*p)], vals[i][j], 'copy', 'look-up', scale=s*1e3)
    mon.near([float(v) for v in dup.lookup(*p)], (vals[i][j][0] + 7*s, vals[i][j][1]), 'copy', 'look-up in the copy', scale=s*1e3)
    mon.check(vf != 1 and not vf == None, 'equality')        # noqa
    # scaled
    sx, sy = rng.uniform(-3, 3), rng.choice((None, 0, rng.uniform(-3, 3)))
    out = vf.scaled(sx) if sy is None else vf.scaled(sx, sy)
    ky = sx if sy is None else sy
    mon.near(flat(values(out)), [k*f for row in vals for v in row for k, f in zip(v, (sx, ky))], 'scaled', sx, sy, scale=s)
    mon.near([float(v) for v in out.lookup(*p)], (vals[i][j][0]*sx, vals[i][j][1]*ky), 'scaled', 'look-up', scale=s*1e3)
    out.vx[i, j] += 1
    mon.check(snap.snap(vf) == before, 'unchanged', 'scaled')
    # normalized
    top = max(math.hypot(*v) for row in vals for v in row)
    out = vf.normalized()
    mon.near(flat(values(out)), [k/top for row in vals for v in row for k in v], 'normalized', scale=1)
    mon.near(max(math.hypot(*v) for row in values(out) for v in row), 1, 'normalized', 'largest')
    mon.check(out.mesh == vf.mesh, 'normalized', 'mesh')
    out.vx[i, j] += 1
    out.vy[i, j] += 1
    mon.check(snap.snap(vf) == before, 'unchanged', 'normalized')
    # smoothed
    out = vf.smoothed()
    got = values(out)
    mags = [math.hypot(*v) for row in got for v in row]
    mon.check(max(mags) <= 1 + 1e-9, 'smoothed', 'magnitude', max(mags))
    mon.check(max(mags) >= 1 - 1e-9, 'smoothed', 'normalised', max(mags))
    for k in (0, 1):
        vs = [v[k] for row in vals for v in row]
        gs = [v[k] for row in got for v in row]
        if min(vs) >= 0:
            mon.check(min(gs) >= -1e-12, 'smoothed', 'sign', min(gs))
        if max(vs) <= 0:
            mon.check(max(gs) <= 1e-12, 'smoothed', 'sign', max(gs))
    if kind == 'constant':
        m = math.hypot(*vals[0][0])
        mon.near(flat(got), [k/m for row in vals for v in row for k in v], 'smoothed', 'constant', scale=1)
    out.vx[i, j] += 1
    out.vy[i, j] += 1
    mon.check(snap.snap(vf) == before, 'unchanged', 'smoothed')
    mon.sig('derived', box, n, vals)


def directions(rng, mon):
    """A field of one direction but different lengths keeps its direction; smoothing reduces peaks"""
    mesh, box, n = random_mesh(rng, 8)
    th = math.radians(gen.angle(rng))
    d = math.cos(th), math.sin(th)
    lens = [[rng.uniform(0.1, 5) for _ in range(n)] for _ in range(n)]
    vf = VectorField(mesh, np.array([[k*d[0] for k in r] for r in lens]), np.array([[k*d[1] for k in r] for r in lens]))
    for _ in range(rng.randint(1, 3)):
        lo, hi = [f(math.hypot(float(x), float(y)) for x, y in zip(vf.vx.flatten(), vf.vy.flatten())) for f in (min, max)]
        vf = vf.smoothed()
        mags = []
        for x, y in zip(vf.vx.flatten(), vf.vy.flatten()):
            mags.append(math.hypot(float(x), float(y)))
            mon.near((float(x), float(y)), (d[0]*mags[-1], d[1]*mags[-1]), 'smoothed', 'direction', scale=1)
        # averaging cannot spread the lengths
        mon.check(min(mags)/max(mags) >= lo/hi*(1-1e-9), 'smoothed', 'spread', lo, hi, min(mags), max(mags))
    mon.sig('dir', box, n, th, lens)


KINDS = [(meshes, 2100, 8400), (lookups, 6000, 40000), (moves, 3600, 30000), (quiver, 1200, 8000), (derived, 3900, 30000),
         (directions, 1500, 9000)]
