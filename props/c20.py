"""C20: morphs interpolate between outlines and restore the model."""
import math

from x7.geom.colors import PenBrush
from x7.geom.geom import Point, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.transform import Transform
from x7.geom.anim import Morph, MorphMultiStep, MorphError, Animation, AnimationHolder, AnimationLinear
from x7.geom.model import ElemCurve, Group
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: drawn outlines after every update of random time histories compared with pointwise interpolation'
RULE = ('random source/target pairs with different numbers of control points placed somewhere in a nested model, driven through '
        'random histories of update times including hidden ones; after every update the drawn outline is compared with the '
        'interpolation of the equalised outlines, the model tables with the expected ones. '
        'Non-trivial: at least three updates; distinct by curves and times.')
ASSUMPTIONS = ['source and targets share one transform (outlines are interpolated in the coordinates of the source)',
               'source and target are both open or both closed, with at least two control points',
               'models searched contain no holed elements; step times ascend and are positive']
REQUIRED = {'lined-up': 400, 'source-at-0': 400, 'target-at-1': 400, 'between': 2500, 'hidden': 600, 'reappears': 270, 'equalised': 1500,
            'in-place': 1200, 'restored': 900, 'missing': 300, 'step': 1500, 'step-between': 900, 'clamped': 800, 'refused': 150}

PPC = 6


def curve(rng, nm, n, closed, xform, pb):
    k = rng.random()
    if k < 0.4:
        cps = gen.cps(rng, n)
    elif k < 0.8 and n >= 3:
        cps = gen.blob(rng, n=n, r=rng.uniform(10, 40), center=gen.xy(rng))
    elif n >= 3:
        cps = gen.poly_cps(rng, n=n)
    else:
        cps = gen.cps(rng, n)
    return ElemCurve(nm, pb, cps, closed=closed, xform=xform.copy())


def setup(rng, ntargets=1):
    closed = rng.random() < 0.7
    xform = gen.transform(rng) if rng.random() < 0.5 else gen.transform(rng, 'identity')
    pb = gen.penbrush(rng, filled=closed and rng.random() < 0.6)
    source = curve(rng, 'src', gen.some(rng, 2, 6, 30), closed, xform, pb)
    targets = [curve(rng, 'tgt%d' % i, gen.some(rng, 2, 6, 30), closed, xform, gen.penbrush(rng, filled=closed and rng.random() < 0.5))
               for i in range(ntargets)]
    model = gen.group(rng, depth=1, holes=False, plain=True)
    holder = model
    if rng.random() < 0.4:
        holder = gen.group(rng, depth=0, nm='sub', holes=False, plain=True)
        model.add(gen.uniq(rng, set(model.elems) | {'src'}), holder)
    items = list(holder.elems.items())
    at = rng.randint(0, len(items))
    holder.elems = dict(items[:at] + [('src', source)] + items[at:])
    return model, holder, source, targets


def cps_of(e):
    return [gen.cp_tuple(cp) for cp in e.control_points]


def blend(a, b, t):
    return [tuple(tuple(p + t*(q-p) for p, q in zip(u, v)) for u, v in zip(x, y)) for x, y in zip(a, b)]


def flat(cps):
    return [v for cp in cps for p in cp for v in p]


def drawn(e):
    return snap.flat(snap.outline_pts(e, ppc=PPC))


def dense(e, n=600):
    """Many points on the outline, in the space of the curve"""
    segs = ref.segs_of(cps_of(e), e.closed)
    k = max(60, n // max(1, len(segs)))
    return [ref.cubic(s, i/k) for s in segs for i in range(k + 1)]


def covers(a, b, tol):
    """Every tenth point of b is near the polyline a"""
    return all(ref.dist_polyline(p, a, False) <= tol for p in b[::10])


def same_outline(mon, before, e, *detail):
    after = dense(e)
    # curvature of a chord: cubic sampled 600 times; tolerance far above the chord error
    size = max(1.0, max(abs(v) for p in before for v in p))
    mon.check(covers(before, after, 2e-3*size) and covers(after, before, 2e-3*size), 'equalised', *detail)


def expect_drawn(style, cps, closed, xform, kind=None):
    e = ElemCurve('x', PenBrush('black'), [ControlPoint(Point(*c), Vector(*dl), Vector(*dr)) for c, dl, dr in cps],
                  closed=closed, xform=xform.copy())
    return drawn(e)


def times(rng):
    return rng.choice((0, 1, 0.5, 0, 1, rng.random(), rng.random(), rng.uniform(-0.5, 1.5)))


def tables(g):
    return [(k, id(v)) for k, v in g.elems.items()]


def morph(rng, mon):
    model, holder, source, (target,) = setup(rng)
    style, xform, closed, name = source.penbrush, source.xform.copy(), source.closed, source.name
    before_s, before_t = dense(source), dense(target)
    counts = len(source.control_points), len(target.control_points)
    box, matrix = tables(holder), model.xform.as_6tuple()
    at = [k for k, v in box].index('src')
    others = snap.snap([v for v in holder.elems.values() if v is not source])
    shape = rng.choice((Animation.identity(), lambda t: t, lambda t: None if 0.4 < t < 0.6 else t,
                        Animation.hide_if(Animation.identity(), 0), lambda t: t*t, lambda t: 1-t))
    m = Morph(model, source, target, shape)
    mon.check(m.orig is source and m.target is target, 'in-place', 'ends')
    mon.check(len(source.control_points) == len(target.control_points) == len(m.morph.control_points) == max(counts),
              'equalised', 'count', counts, len(source.control_points), len(target.control_points))
    same_outline(mon, before_s, source, 'source', counts)
    same_outline(mon, before_t, target, 'target', counts)
    now = tables(holder)
    mon.check(now[at] == ('src', id(m.morph)) and now[:at] == box[:at] and now[at+1:] == box[at+1:], 'in-place', now, box)
    mon.check(m.morph is not source and m.morph.penbrush == style and m.morph.closed == closed and m.morph.name == name
              and m.morph.xform == xform, 'in-place', 'style', m.morph)
    mon.near(drawn(m.morph), drawn(source), 'in-place', 'before the first update', scale=300)
    a, b = cps_of(source), cps_of(target)
    holder2 = AnimationHolder()
    holder2.add(m)
    hist = []
    hidden = False
    for _ in range(rng.randint(3, 10)):
        t = times(rng)
        hist.append(t)
        (m if rng.random() < 0.7 else holder2).update(t)
        s = shape(t)
        if s is None:
            pts = drawn(m.morph)
            mon.check(all(abs(v) > 1e4 for p in m.morph.control_points for v in p.c.xy()) and len(pts) > 0, 'hidden', t, m.morph)
            hidden = True
            continue
        want = blend(a, b, s)
        mon.near(flat(cps_of(m.morph)), flat(want), 'between', t, s, hist, scale=300)
        mon.near(drawn(m.morph), expect_drawn(style, want, closed, xform), 'between', 'drawn', s, scale=1e3)
        if s == 0:
            mon.near(drawn(m.morph), drawn(source), 'source-at-0', hist, scale=1e3)
        if s == 1:
            mon.near(drawn(m.morph), drawn(target), 'target-at-1', hist, scale=1e3)
        if hidden:
            mon.near(flat(cps_of(m.morph)), flat(want), 'reappears', hist, scale=300)
            hidden = False
        mon.check(m.morph.closed == closed and m.morph.penbrush == style, 'between', 'style')
    mon.check(cps_of(source) == a and cps_of(target) == b, 'between', 'ends modified', hist)
    mon.check(holder.lookup('src') is m.morph, 'in-place', 'lost')
    mon.check(snap.snap([v for k, v in holder.elems.items() if k != 'src']) == others, 'in-place', 'others')
    m.restore()
    mon.check(tables(holder) == box and source.name == name and source.penbrush == style and source.xform == xform,
              'restored', tables(holder), box)
    same_outline(mon, before_s, source, 'restored')
    mon.check(model.xform.as_6tuple() == matrix, 'restored', 'model')
    mon.sig(a, b, hist)
    mon.sample(counts, closed, hist)


def always_hidden(rng, mon):
    """Long hidden stretches, moving ends"""
    model, holder, source, (target,) = setup(rng)
    m = Morph(model, source, target, lambda t: None if t < 0 else t)
    mover = AnimationLinear(source.control_points[0].c, gen.pt(rng))
    hist = []
    for _ in range(rng.randint(3, 9)):
        t = rng.choice((-1, -0.5, times(rng)))
        hist.append(t)
        if rng.random() < 0.3:
            mover.update(rng.random())
        m.update(t)
        if t < 0:
            mon.check(all(abs(v) > 1e4 for p in m.morph.control_points for v in p.c.xy()), 'hidden', t)
        else:
            mon.near(flat(cps_of(m.morph)), flat(blend(cps_of(source), cps_of(target), t)),
                     'reappears' if len(hist) > 1 and hist[-2] < 0 else 'between', hist, scale=300)
    m.restore()
    mon.check(holder.lookup('src') is source, 'restored', hist)
    # installed once more by hand, or a second morph of the restored source
    if rng.random() < 0.4:
        again = m if rng.random() < 0.5 else Morph(model, source, target, Animation.identity())
        if again is m:
            mon.check(model.replace(source, m.morph) == 1, 'in-place', 'by hand')
        mon.check(holder.lookup('src') is again.morph, 'in-place', 'again')
        t = rng.random()
        again.update(t)
        mon.near(flat(cps_of(again.morph)), flat(blend(cps_of(source), cps_of(target), t)), 'between', 'again', t, scale=300)
        again.restore()
        mon.check(holder.lookup('src') is source, 'restored', 'again', hist)
    mon.sig('hide', cps_of(source), hist)


def missing(rng, mon):
    model, holder, source, (target,) = setup(rng)
    # a curve of its own, sometimes with the name of an element of the model
    nm = rng.choice(['stray', 'src'] + list(model.elems))
    stray = curve(rng, nm, rng.randint(2, 5), source.closed, source.xform, source.penbrush)
    box = tables(holder)
    state = snap.snap(model)
    if rng.random() < 0.5:
        mon.raises(MorphError, lambda: Morph(model, stray, target, Animation.identity()), 'missing')
    else:
        mon.raises(MorphError, lambda: MorphMultiStep(model, stray, [(1.0, target)], Animation.identity()), 'missing')
    mon.check(tables(holder) == box and snap.snap(model) == state, 'missing', 'model changed')
    if len(source.control_points) != len(target.control_points):
        n = len(source.control_points), len(target.control_points)
        mon.raises(MorphError, lambda: Morph(model, source, target, Animation.identity(), force=False), 'refused', n)
        mon.check((len(source.control_points), len(target.control_points)) == n and tables(holder) == box
                  and snap.snap(model) == state, 'refused', 'changed')
    else:
        m = Morph(model, source, target, Animation.identity(), force=False)
        m.update(1)
        mon.near(drawn(m.morph), drawn(target), 'target-at-1', 'unforced', scale=1e3)
        m.restore()
        mon.check(tables(holder) == box, 'restored')
    mon.sig('missing', state)


def multi(rng, mon):
    model, holder, source, targets = setup(rng, rng.randint(1, 4))
    style, xform, closed = source.penbrush, source.xform.copy(), source.closed
    steps, t = [], 0.0
    for tg in targets:
        t += rng.choice((0.25, 0.5, 1, rng.uniform(0.05, 1)))
        steps.append((t, tg))
    box = tables(holder)
    at = [k for k, v in box].index('src')
    before = [dense(source)] + [dense(tg) for tg in targets]
    starts = [cps_of(source)[0][0]] + [cps_of(tg)[0][0] for tg in targets]
    plain = xform == Transform()
    state = snap.snap(source)
    shape = rng.choice((Animation.identity(), lambda t: None if t < -0.3 else t))
    force = rng.random() < 0.8
    m = MorphMultiStep(model, source, list(steps), shape, force=force)
    mon.check(snap.snap(source) == state, 'in-place', 'source modified')
    for tg, b in zip(targets, before[1:]):
        same_outline(mon, b, tg, 'multi target')
    n = len(m.morph.control_points)
    mon.check(all(len(tg.control_points) == n for tg in targets), 'equalised', 'counts', n)
    now = tables(holder)
    mon.check(now[at] == ('src', id(m.morph)) and now[:at] == box[:at] and now[at+1:] == box[at+1:], 'in-place', now, box)
    mon.check(m.morph.penbrush == style and m.morph.closed == closed and m.morph.xform == xform and m.morph.name == 'src',
              'in-place', 'style', m.morph)
    same_outline(mon, before[0], m.morph, 'multi morph')
    m.update(0)
    first = cps_of(m.morph)         # the equalised source
    # closed steps are lined up at their lower left; nothing else changes where an outline starts
    for start, old, now in zip(starts, [m.morph] + targets, [first] + [cps_of(tg) for tg in targets]):
        if not closed:
            mon.near(now[0][0], start, 'lined-up', 'moved', scale=300)
        elif force and plain:
            corner = old.bbox().as_tuple()[:2]
            far = sorted(math.dist(cp[0], corner) for cp in now)
            if far[1] > far[0] + 0.05:
                mon.check(math.dist(now[0][0], corner) < far[0] + 0.05, 'lined-up', now, corner)
    same_outline(mon, before[0], m.morph, 'multi source')
    knots = [(0.0, first)] + [(s, cps_of(tg)) for s, tg in steps]
    hist = []
    hidden = False
    last = steps[-1][0]
    for _ in range(rng.randint(4, 12)):
        t = rng.choice((0, rng.choice(knots)[0], rng.uniform(0, last), rng.uniform(0, last), -0.1, -1, last + rng.random(), 10))
        hist.append(t)
        m.update(t)
        s = shape(t)
        if s is None:
            mon.check(all(abs(v) > 1e4 for p in m.morph.control_points for v in p.c.xy()), 'hidden', t)
            hidden = True
            continue
        if s <= 0:
            want, what = first, 'clamped'
        elif s >= last:
            want, what = knots[-1][1], 'clamped'
        else:
            for (t0, a), (t1, b) in zip(knots, knots[1:]):
                if s <= t1:
                    want, what = blend(a, b, (s-t0)/(t1-t0)), 'step-between'
                    break
        if s in [k for k, _ in knots]:
            what = 'step'
            mon.near(flat(cps_of(m.morph)), flat(dict(knots)[s]), 'step', hist, scale=300)
        mon.near(flat(cps_of(m.morph)), flat(want), what, hist, scale=300)
        mon.near(drawn(m.morph), expect_drawn(style, want, closed, xform), what, 'drawn', scale=1e3)
        if hidden:
            mon.near(flat(cps_of(m.morph)), flat(want), 'reappears', hist, scale=300)
            hidden = False
    for (s, k), tg in zip(knots[1:], targets):
        mon.check(cps_of(tg) == k, 'step', 'target modified')
    m.restore()
    mon.check(tables(holder) == box and snap.snap(source) == state, 'restored', tables(holder), box)
    mon.sig('multi', first, hist)


assert Group
KINDS = [(morph, 700, 15000), (always_hidden, 300, 5000), (missing, 400, 6000), (multi, 600, 12000)]
