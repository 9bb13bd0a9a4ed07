"""C19: point animations are pure functions of time."""
import math

from x7.geom.geom import Point, PointRelative, PointCalc, Vector
from x7.geom.anim import (Animation, AnimationGeneric, AnimationLinear, AnimationLinearFunc, AnimationSinusoidal,
                          AnimationCircular, AnimationHolder)
from monlib import gen

TECHNIQUE = 'runtime monitoring: every update of random time sequences compared with a closed-form reference'
RULE = ('random histories of update times (repeated, reversed, out of range, pairs) for every animation kind, alone and in a holder, '
        'with the target moved and the animated point disturbed in between; the point after every update is compared with '
        'the closed form of (t, original, target now). Non-trivial: at least three updates; distinct by parameters and times.')
ASSUMPTIONS = ['a pair of times is given to linear motions only', 'circular phase offsets are in radians, sinusoidal ones in degrees',
               'one animation per point']
REQUIRED = {'linear': 2600, 'pair': 1400, 'linear-func': 1900, 'sinusoidal': 2000, 'circular': 2000, 'generic': 1500,
            'exact-ends': 2000, 'target-unmoved': 6000, 'refused': 1500, 'holder': 3000}


def when(rng):
    return rng.choice((0, 1, 0.0, 1.0, 0.5, 0.25, rng.random(), rng.random(), rng.uniform(-3, 3), -1, 2, rng.randint(-5, 5)))


def lerp(o, q, tx, ty):
    return (1-tx)*o[0] + tx*q[0], (1-ty)*o[1] + ty*q[1]


def make_target(rng):
    """A target point and a function that moves it"""
    k = rng.random()
    if k < 0.6:
        p = gen.pt(rng)
        return p, lambda: p.setxy(*gen.xy(rng))
    base = gen.pt(rng)
    rel = PointRelative(*gen.xy(rng), base)
    if k < 0.85:
        return rel, lambda: base.setxy(*gen.xy(rng))
    return PointCalc(rel, rng.choice((2, 0.5, -1))), lambda: base.setxy(*gen.xy(rng))


def make(rng):
    """(animation, point, target or None, mover, kind, reference(t, target) -> (x, y))"""
    p = gen.pt(rng, rng.choice((None, 'subject')))
    o = p.xy()
    target, move = make_target(rng)
    kind = rng.choice(('linear', 'linear', 'linear-func', 'sinusoidal', 'circular', 'generic'))
    if kind == 'linear':
        def want(t):
            tx, ty = t if isinstance(t, tuple) else (t, t)
            return lerp(o, target.xy(), tx, ty)
        return AnimationLinear(p, target), p, target, move, kind, want
    if kind == 'linear-func':
        a, b = rng.uniform(-2, 2), rng.uniform(-1, 1)
        pair = rng.random() < 0.5

        def func(t):
            if isinstance(t, tuple):
                return t[0]*a + b, t[1]*b - a
            return (a*t + b, b*t) if pair else a*t + b

        def want(t):
            v = func(t)
            tx, ty = v if isinstance(v, tuple) else (v, v)
            return lerp(o, target.xy(), tx, ty)
        return AnimationLinearFunc(p, target, func), p, target, move, kind, want
    if kind == 'sinusoidal':
        f, off = rng.choice((1.0, 1, 2, 0.5, rng.uniform(0.1, 4), -1)), rng.choice((0, 0, 90, 180, -90, gen.angle(rng)))

        def want(t):
            v = (1 - math.cos(2*math.pi*f*t + math.radians(off))) / 2
            return lerp(o, target.xy(), v, v)
        k = rng.random()
        if k < 0.2:
            f, off = 1.0, 0
            an = AnimationSinusoidal(p, target)
        elif k < 0.4:
            off = 0
            an = AnimationSinusoidal(p, target, f)
        else:
            an = AnimationSinusoidal(p, target, frequency=f, offset=off)
        return an, p, target, move, kind, want
    if kind == 'circular':
        r, f = rng.choice((0, 1, 10, rng.uniform(0, 50))), rng.choice((1, 2, 0.5, -1, rng.uniform(0.1, 4)))
        off = rng.choice((0, 0, 1, math.pi, rng.uniform(-7, 7)))

        def want(t):
            th = 2*math.pi*f*t + off
            return o[0] + r*math.sin(th), o[1] + r*math.cos(th)
        an = AnimationCircular(p, r, f, off) if off or rng.random() < 0.5 else AnimationCircular(p, r, f)
        return an, p, None, None, kind, want

    def gfunc(t, orig, point):
        assert point is p
        return orig.x + 3*t, orig.y - t*t

    return AnimationGeneric(p, gfunc), p, None, None, kind, lambda t: (o[0] + 3*t, o[1] - t*t)


def histories(rng, mon):
    an, p, target, move, kind, want = make(rng)
    o, name = p.xy(), p.name
    mon.check(isinstance(an, Animation), kind, 'class')
    mon.check(p.xy() == o, kind, 'constructor moved the point')
    times, moved = [], 0
    for _ in range(rng.randint(3, 15)):
        k = rng.random()
        if k < 0.15 and move:
            move()
            moved += 1
        elif k < 0.3:
            p.setxy(*gen.xy(rng))       # whatever happened to the point in between does not matter
        t = rng.choice(times) if times and rng.random() < 0.25 else when(rng)
        if kind in ('linear', 'linear-func') and rng.random() < 0.4:
            t = t if isinstance(t, tuple) else (t, when(rng))
        if isinstance(t, tuple) and kind not in ('linear', 'linear-func'):
            t = when(rng)
        times.append(t)
        q = target and target.xy()
        an.update(t)
        mon.near(p.xy(), want(t), 'pair' if isinstance(t, tuple) else kind, an, t, times, scale=300)
        if target:
            mon.check(target.xy() == q, 'target-unmoved', kind, t, target, q)
        if kind == 'linear':
            tx, ty = t if isinstance(t, tuple) else (t, t)
            for i, tt in enumerate((tx, ty)):
                if tt in (0, 1):
                    mon.check(p.xy()[i] == (target.xy()[i] if tt else o[i]), 'exact-ends', t, p, o, target)
    mon.check(p.name == name, kind, 'name')
    mon.sig(kind, o, times)
    mon.sample(kind, o, times)


def landmarks(rng, mon):
    """Documented positions at documented times"""
    p, q = gen.pt(rng), gen.pt(rng)
    o = p.xy()
    f = rng.choice((1.0, 2.0, 0.5, 3))
    an = AnimationSinusoidal(p, q, frequency=f)
    for t, there in rng.sample(((0, 0), (0.5/f, 1), (1/f, 0), (1.5/f, 1), (-0.5/f, 1)), 5):
        an.update(t)
        mon.near(p.xy(), q.xy() if there else o, 'sinusoidal', 'landmark', f, t, scale=100)
    p = Point(*o)
    r = rng.uniform(0.1, 40)
    an = AnimationCircular(p, r, f)
    for _ in range(4):
        t = when(rng)
        an.update(t)
        mon.near(math.hypot(p.x-o[0], p.y-o[1]), r, 'circular', 'radius', t, scale=100)
    for t, (dx, dy) in rng.sample(((0, (0, 1)), (0.25/f, (1, 0)), (0.5/f, (0, -1)), (0.75/f, (-1, 0)), (1/f, (0, 1))), 5):
        an.update(t)
        mon.near(p.xy(), (o[0]+r*dx, o[1]+r*dy), 'circular', 'phase', f, t, scale=100)
    base = gen.pt(rng)
    for bad in (PointRelative(1, 2, base), PointCalc(PointRelative(1, 2, base), 2), Vector(3, 4)):
        for mk in (lambda: AnimationLinear(bad, q), lambda: AnimationSinusoidal(bad, q), lambda: AnimationCircular(bad, 3, 1),
                   lambda: AnimationGeneric(bad, lambda t, o2, p2: (0, 0)), lambda: AnimationLinearFunc(bad, q, lambda t: t)):
            mon.raises(ValueError, mk, 'refused', bad)
    mon.sig('land', o, q.xy(), f)


def holders(rng, mon):
    holder = AnimationHolder()
    parts = [make(rng) for _ in range(gen.some(rng, 0, 5, 40))]
    if rng.random() < 0.3:
        parts = [x for x in parts if x[4] in ('linear', 'linear-func')]
    for part in parts:
        holder.add(part[0])
    times = []
    for _ in range(rng.randint(3, 8)):
        t = when(rng)
        times.append(t)
        if rng.random() < 0.2:
            extra = make(rng)
            holder.add(extra[0])
            parts.append(extra)
        if rng.random() < 0.4 and all(x[4] in ('linear', 'linear-func') for x in parts):
            t = t, when(rng)
        holder.update(t)
        for an, p, target, move, kind, want in parts:
            mon.near(p.xy(), want(t), 'holder', kind, t, scale=300)
        if rng.random() < 0.3:
            for part in parts:
                if part[3]:
                    part[3]()
    if parts:
        mon.sig('holder', [x[4] for x in parts], times)


KINDS = [(histories, 10000, 60000), (landmarks, 1200, 6000), (holders, 2400, 12000)]
