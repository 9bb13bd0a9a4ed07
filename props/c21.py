"""C21: time-shaping functions match their documented formulas."""
import math

from x7.geom.anim import Animation
from monlib import gen

TECHNIQUE = 'runtime monitoring: every evaluation compared with the documented formula, twice for purity'
RULE = ('random parameters and times (repeated, out of range, pairs) for every factory; each value is compared with the documented '
        'formula computed with math only, and evaluated again after other calls. '
        'Non-trivial: every function; distinct by parameters and times.')
ASSUMPTIONS = ['knots ascend, ramps satisfy 0 <= start < end <= 1', 'hide_if shapes scalar functions']
REQUIRED = {'trig': 7300, 'sin_cos': 3200, 'ramp': 4800, 'interpolate': 4000, 'knots': 1400, 'pair': 3000, 'xy': 2400,
            'hide': 2000, 'pure': 19300}


def when(rng):
    return rng.choice((0, 1, 0.5, 0.25, 0.75, rng.random(), rng.random(), rng.uniform(-3, 3), rng.randint(-3, 3)))


def params(rng):
    p = dict(frequency=rng.choice((1.0, 1, 2, 0.5, 0, rng.uniform(-4, 4))), offset=rng.choice((0, 90, 180, -90, 30, gen.angle(rng))),
             scale=rng.choice((1, 0.5, -2, 0, 0.0, rng.uniform(-5, 5))), shift=rng.choice((0, 1, -0.5, rng.uniform(-5, 5))))
    given = {k: v for k, v in p.items() if rng.random() < 0.7}
    full = dict(frequency=1.0, offset=0.0, scale=1.0, shift=0.0)
    full.update(given)
    return given, full


def again(mon, func, seen):
    for t, v in seen:
        mon.check(func(t) == v, 'pure', t, v)


def trig(rng, mon):
    given, p = params(rng)
    arg = lambda t: 2*math.pi*p['frequency']*t + math.radians(p['offset'])
    custom = lambda v: v*v - 1
    funcs = [(Animation.sin(**given), math.sin), (Animation.cos(**given), math.cos),
             (Animation.periodic(math.sin, **given), math.sin), (Animation.periodic(custom, **given), custom)]
    if rng.random() < 0.3:
        funcs.append((Animation.sin(p['frequency'], p['offset'], p['scale'], p['shift']), math.sin))
        funcs.append((Animation.periodic(math.cos, p['frequency'], p['offset'], p['scale'], p['shift']), math.cos))
    ts = [when(rng) for _ in range(4)]
    for func, ref in funcs:
        seen = []
        for t in ts:
            v = func(t)
            mon.near(v, ref(arg(t))*p['scale'] + p['shift'], 'trig', p, t, rel=1e-8)
            seen.append((t, v))
        again(mon, func, seen)
    both = Animation.sin_cos(**given)
    seen = []
    for t in ts:
        v = both(t)
        mon.check(isinstance(v, tuple) and len(v) == 2, 'sin_cos', v)
        mon.near(v, (math.sin(arg(t))*p['scale'] + p['shift'], math.cos(arg(t))*p['scale'] + p['shift']), 'sin_cos', p, t, rel=1e-8)
        seen.append((t, v))
    again(mon, both, seen)
    mon.sig('trig', p, ts)
    mon.sample(p, ts)


def ramps(rng, mon):
    s, e = sorted(rng.choice(((0.25, 0.75), (0, 1), (0.0, 0.5), (0.5, 1), (rng.random(), rng.random()))))
    if e - s < 1e-3:
        e = min(1, s + 0.1)
        s = e - 0.1
    k = rng.random()
    if k < 0.15:
        s, e = 0.25, 0.75
        up, down = Animation.ramp_up(), Animation.ramp_down()
    elif k < 0.5:
        up, down = Animation.ramp_up(s, e), Animation.ramp_down(s, e)
    else:
        up, down = Animation.ramp_up(start=s, end=e), Animation.ramp_down(end=e, start=s)
    seen_u, seen_d = [], []
    for _ in range(6):
        t = rng.choice((when(rng), s, e, rng.uniform(s, e)))
        v = 0.0 if t <= s else (1.0 if t >= e else (t-s)/(e-s))
        mon.near(up(t), v, 'ramp', 'up', s, e, t)
        mon.near(down(t), 1-v, 'ramp', 'down', s, e, t)
        seen_u.append((t, up(t)))
        seen_d.append((t, down(t)))
    again(mon, up, seen_u)
    again(mon, down, seen_d)
    mon.sig('ramp', s, e, seen_u)


def value(curve, t):
    if t <= curve[0][0]:
        return curve[0][1]
    for (t0, v0), (t1, v1) in zip(curve, curve[1:]):
        if t <= t1:
            return v0 + (v1-v0)*(t-t0)/(t1-t0)
    return curve[-1][1]


def interpolates(rng, mon):
    n = gen.some(rng, 1, 6, 60)
    knots = sorted(rng.sample(range(-20, 40), n))
    scale = rng.choice((1, 0.1, 0.05))
    curve = [(k*scale, gen.coord(rng)) for k in knots]
    arg = list(curve)
    func = Animation.interpolate(arg)
    if rng.random() < 0.3:
        arg.append((1e9, 5))        # the function does not depend on the list afterwards
        arg[0] = (-1e9, 7)
    for t, v in curve:
        mon.near(func(t), v, 'knots', curve, t)
    seen = []
    for _ in range(5):
        t = rng.choice((when(rng), rng.uniform(knots[0]*scale, knots[-1]*scale), knots[0]*scale - 1, knots[-1]*scale + 1))
        v = func(t)
        mon.near(v, value(curve, t), 'interpolate', curve, t, scale=100)
        mon.check(not isinstance(v, tuple), 'interpolate', 'scalar')
        seen.append((t, v))
        u = when(rng)
        w = func((t, u))
        mon.check(isinstance(w, tuple) and len(w) == 2, 'pair', w)
        mon.near(w, (value(curve, t), value(curve, u)), 'pair', curve, (t, u), scale=100)
        seen.append(((t, u), w))
    again(mon, func, seen)
    mon.sig('interp', curve, seen)


def forms(rng, mon):
    t, u = when(rng), when(rng)
    mon.check(Animation.identity()(t) == t and Animation.identity()((t, u)) == (t, u), 'xy', 'identity')
    ixy = Animation.identity_xy()
    mon.check(ixy(t) == (t, t) and ixy((t, u)) == (t, u), 'xy', 'identity_xy', ixy(t))
    a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
    f = Animation.xy(lambda v: a*v, lambda v: b-v)
    mon.check(f(t) == (a*t, b-t), 'xy', f(t))
    mon.check(Animation.xy(x_func=lambda v: a*v)(t) == (a*t, t), 'xy', 'default y')
    mon.check(Animation.xy(y_func=lambda v: b*v)(t) == (t, b*t), 'xy', 'default x')
    mon.check(Animation.xy()(t) == (t, t), 'xy', 'default')
    # hiding
    inner = rng.choice((lambda v: a*v + b, Animation.sin(), Animation.interpolate([(0, -1), (1, 1)]), Animation.identity()))
    th = rng.choice((0, 0.5, -0.25, rng.uniform(-1, 1)))
    g = Animation.hide_if(inner, th) if th or rng.random() < 0.5 else Animation.hide_if(inner)
    seen = []
    for tt in (t, u, when(rng), when(rng)):
        v = inner(tt)
        mon.check(g(tt) is None if v < th else g(tt) == v, 'hide', tt, v, th, g(tt))
        seen.append((tt, g(tt)))
    h = Animation.hide_if(lambda v: v, th)      # exactly at the threshold it is shown
    mon.check(h(th) == th and h(th - 1e-6) is None, 'hide', 'threshold', th)
    again(mon, g, seen)
    mon.sig('forms', t, u, a, b, th)


KINDS = [(trig, 4000, 25000), (ramps, 4000, 20000), (interpolates, 4000, 20000), (forms, 4000, 20000)]
