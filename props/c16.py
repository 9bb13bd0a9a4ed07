"""C16: dump, repr and the pickling helper yield text that evaluates back to an equal, identically drawing object."""
import io

from x7.geom.geom import Point, PointRelative, PointCalc, Vector, VectorRelative, BBox, Line
from x7.geom.transform import Transform
from x7.geom.colors import Pen, Brush, PenBrush, PensByShape
from x7.geom.bezier import ControlPoint
from x7.geom.model import (ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, Group, ElemWithHoles,
                           DumpContext, GroupBuilder)
from x7.geom.testing import PicklerExtensionGeom
from x7.testing import support
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: round-trip oracle (evaluate the emitted text, compare deep snapshots and drawn outlines)'
RULE = ('random models with hostile names, colours, coordinates, transforms, hidden groups, named points, holed elements and '
        'relative points; the text of dump (shared variables on/off), repr and the pickler is evaluated in its documented '
        'namespace and the deep snapshot, equality, outline and re-dumped text are compared with the original. '
        'Non-trivial: every evaluated text; distinct by text.')
ASSUMPTIONS = ['finite numbers', 'the parts of a holed element carry its style',
               'stored matrix stacks and identity sharing of points are not part of the dumped state',
               'pickled elements use absolute points']
REQUIRED = {'dump-eval': 1800, 'dump-equal': 3000, 'dump-draws': 1800, 'dump-stable': 1200, 'repr-equal': 18400,
            'pickle-equal': 1800, 'just-lines': 1000}

NAMESPACE = {}
exec('\n'.join(DumpContext.DEFAULT_IMPORTS), NAMESPACE)


def wild(rng):
    """A coordinate of any size and type"""
    return rng.choice((0, -0.0, 1, -7, 0.1, 1/3, 1e-300, 5e-324, 1e300, -1e16, 123456789012345678, 2**53+1,
                       rng.randint(-99, 99), rng.uniform(-100, 100), rng.uniform(-1, 1)*10**rng.randint(-12, 12)))


def wild_color(rng):
    return rng.choice(("it's", 'a"b', 'back\\slash', '#12ab9F', 'rgb(1, 2, 3)', 'black', (1, 2, 3), (0, 0, 0, 0),
                       (255, 254, 253, 252), 'ünï', 'new\nline', gen.color(rng)))


def wild_penbrush(rng, filled=None):
    if rng.random() < 0.5:
        return gen.penbrush(rng, filled)
    if filled is None:
        filled = rng.random() < 0.5
    pen = rng.choice((None, Pen(wild_color(rng), wild(rng)), Pen(wild_color(rng)), Pen(Brush(wild_color(rng)), -3)))
    return PenBrush(pen, Brush(wild_color(rng)) if filled else None)


def wild_point(rng, wilder, relative=True):
    num = wild if wilder else gen.coord
    nm = rng.choice((None, None, None, gen.name(rng), 'fixed_x'))
    p = Point(num(rng), num(rng), nm) if nm else Point(num(rng), num(rng))
    k = rng.random()
    if relative and k < 0.1:
        return PointRelative(num(rng), num(rng), p, *([gen.name(rng)] if rng.random() < 0.5 else []))
    if relative and k < 0.15:
        return PointCalc(PointRelative(num(rng), num(rng), p), rng.choice((2, 0.5, -1)))
    return p


def curve(rng, nm, wilder=False, relative=True):
    num = wild if wilder else gen.coord
    pb = wild_penbrush(rng)
    cps = [ControlPoint(wild_point(rng, wilder, relative), Vector(num(rng), num(rng)), Vector(num(rng), num(rng)),
                        rng.choice(gen.KINDS)) for _ in range(gen.some(rng, 1, 4, 30))]
    return ElemCurve(nm, pb, cps, closed=pb.filled or rng.random() < 0.5, xform=gen.transform(rng))


def leaf(rng, nm, relative=True):
    k = rng.random()
    if k < 0.4:
        return curve(rng, nm, relative=relative)
    if k < 0.6:
        return gen.holed(rng, nm, pb=wild_penbrush(rng))
    cls = rng.choice((ElemRectangle, ElemRectangleRounded, ElemEllipse))
    a, b = wild_point(rng, False), wild_point(rng, False)
    extra = {'radius': abs(gen.coord(rng))} if cls is ElemRectangleRounded else {}
    return cls(nm, wild_penbrush(rng), a, b, xform=gen.transform(rng), **extra)


def model(rng, depth=2, nm=None, relative=True):
    nm = nm or gen.name(rng)
    closed = rng.random() < 0.3
    g = Group(nm, wild_penbrush(rng, filled=None if closed else False), closed=closed, hidden=rng.random() < 0.3,
              xform=rng.choice((None, gen.transform(rng))))
    used = set()
    shared = wild_penbrush(rng, False)
    if rng.random() < 0.3:              # two styles that print alike
        c = rng.choice(((1, 2, 3), (0, 0, 0, 0), (255, 254, 253, 252), None))
        shared = PenBrush(Pen(c, 1)) if c else PenBrush(None)
        alike = PenBrush(Pen(str(c), 1))
    else:
        alike = shared
    for _ in range(rng.choice((0, 1, 2, 3, 5))):
        n = gen.uniq(rng, used)
        if depth and rng.random() < 0.35:
            g.add(n, model(rng, depth-1, n, relative))
        else:
            e = leaf(rng, n, relative)
            if rng.random() < 0.3 and not isinstance(e, ElemWithHoles):
                e.penbrush = shared if rng.random() < 0.5 or isinstance(e, ElemWithHoles) else alike
            g.add(n, e)
    for _ in range(rng.choice((0, 0, 1, 3))):
        n = gen.uniq(rng, used)
        g.add_pt(n, wild_point(rng, rng.random() < 0.3, relative))
    return g


def same(mon, new, old, name):
    mon.check(type(new) is type(old) and new == old and old == new, name, 'eq', new, old)
    a, b = snap.snap(new), snap.snap(old)
    mon.check(a == b, name, 'state', a, b)


def evaluate(text):
    ns = {}
    exec(text, ns)
    return ns['model']


def dumps(rng, mon):
    m = rng.choice((model, model, lambda r: leaf(r, gen.name(r))))(rng)
    before = snap.snap(m)
    for use_vars in (True, False):
        context = DumpContext(use_vars=use_vars)
        back = m.dump(context)
        mon.check(back is context, 'dump-eval', 'returns the context')
        text = context.output()
        try:
            new = evaluate(text)
        except Exception as err:
            mon.check(False, 'dump-eval', '%s: %s' % (type(err).__name__, err), text)
            continue
        same(mon, new, m, 'dump-equal')
        if isinstance(m, Group):
            mon.check(list(new.elems) == list(m.elems), 'dump-equal', 'order')
        mon.check(snap.outline(new, ppc=3) == snap.outline(m, ppc=3), 'dump-draws', m)
        again = DumpContext(use_vars=use_vars)
        new.dump(again)
        mon.check(again.output() == text, 'dump-stable', text)
        context = DumpContext(use_vars=use_vars)
        m.dump(context)
        if not use_vars:
            new = eval(context.output(just_lines=True), dict(NAMESPACE))
            same(mon, new, m, 'just-lines')
        mon.sig(text)
    mon.check(snap.snap(m) == before, 'dump-equal', 'original changed', m)
    mon.sample(text)


def several(rng, mon):
    """One context for a model whose parts share styles and transforms; builder and default context"""
    b = GroupBuilder(gen.name(rng, True), PensByShape(edge=wild_penbrush(rng, False), filled=wild_penbrush(rng, True)))
    xf = gen.transform(rng)
    pb = wild_penbrush(rng, True)
    for i in range(gen.some(rng, 1, 5, 30)):
        k = rng.randrange(5)
        nm = 'e%d' % i
        p, q = wild_point(rng, False), wild_point(rng, False)
        if k == 0:
            e = b.rect(nm, p, q, rng.choice((pb, 'edge', 'filled')))
        elif k == 1:
            e = b.rrect(nm, p, q, abs(gen.coord(rng)), rng.choice((pb, 'edge', 'filled')))
        elif k == 2:
            e = b.ellipse(nm, p, q, rng.choice((pb, 'edge', 'filled')))
        elif k == 3:
            e = b.curve(nm, gen.cps(rng), rng.choice((pb, 'edge', 'filled')))
        else:
            s = b.group(nm)
            s.rect('r', p, q)
            s.point('pt', *gen.xy(rng))
            e = s.the_group
        if rng.random() < 0.5:
            e.xform = xf.copy()
    b.point('anchor', *gen.xy(rng))
    for text in (b.dump().output(), b.the_group.dump().output(), b.dump(DumpContext(False)).output()):
        try:
            new = evaluate(text)
        except Exception as err:
            mon.check(False, 'dump-eval', '%s: %s' % (type(err).__name__, err), text)
            continue
        mon.check(True, 'dump-eval')
        same(mon, new, b.the_group, 'dump-equal')
        mon.check(snap.outline(new, ppc=3) == snap.outline(b.the_group, ppc=3), 'dump-draws')
        mon.sig(text)


def reprs(rng, mon):
    n = wild
    pt = wild_point(rng, True)
    v1, v2 = Vector(n(rng), n(rng)), Vector(n(rng), n(rng))
    things = [pt, Point(n(rng), n(rng)), Point(n(rng), n(rng), gen.name(rng)),
              PointRelative(n(rng), n(rng), Point(n(rng), n(rng), gen.name(rng)), gen.name(rng)),
              PointRelative(n(rng), n(rng), Point(n(rng), n(rng))),
              PointCalc(PointRelative(n(rng), n(rng), Point(n(rng), n(rng))), n(rng)),
              PointCalc(PointRelative(n(rng), n(rng), Point(n(rng), n(rng))), n(rng), gen.name(rng)),
              v1, VectorRelative(Point(n(rng), n(rng)), Point(n(rng), n(rng), gen.name(rng))),
              BBox(n(rng), n(rng), n(rng), n(rng)), BBox(Point(n(rng), n(rng)), Point(n(rng), n(rng))),
              Line(Point(n(rng), n(rng)), Vector(n(rng), n(rng))),
              gen.transform(rng), Transform(tuple(n(rng) for _ in range(6))),
              ControlPoint(pt, v1, v2, rng.choice(gen.KINDS)), ControlPoint(Point(n(rng), n(rng)), v1, v2),
              Brush(wild_color(rng)), Pen(wild_color(rng), n(rng)), Pen(wild_color(rng)), wild_penbrush(rng, False),
              wild_penbrush(rng, True), PenBrush(None, wild_color(rng))]
    pbs = PensByShape(*[wild_penbrush(rng) for _ in range(5)])
    for t in things:
        text = repr(t)
        try:
            new = eval(text, dict(NAMESPACE))
        except Exception as err:
            mon.check(False, 'repr-equal', '%s: %s' % (type(err).__name__, err), text)
            continue
        same(mon, new, t, 'repr-equal')
        mon.check(repr(new) == text, 'repr-equal', 'text', text, new)
        mon.sig(text)
    new = eval(repr(pbs), dict(NAMESPACE))
    for k in PensByShape.keys():
        same(mon, new[k], pbs[k], 'repr-equal')
    # an own Transform repr inside an element: state after push/pop and in-place updates
    t = gen.transform(rng)
    with t.push():
        t.translate(3, 4)
        gen.real_op(t, *gen.op(rng))
        inner = gen.aff_of(t)
        mon.check(gen.aff_of(eval(repr(t), dict(NAMESPACE))) == inner, 'repr-equal', 'pushed transform', t)


def pickles(rng, mon):
    p = support.Pickler([PicklerExtensionGeom])
    k = rng.randrange(5)
    if k == 0:
        data = leaf(rng, gen.name(rng), relative=False)
    elif k == 1:
        data = model(rng, relative=False)
    elif k == 2:
        data = [leaf(rng, gen.name(rng), relative=False) for _ in range(gen.some(rng, 1, 4, 30))]
    elif k == 3:
        m = model(rng, relative=False)
        data = [(n, e, t.copy()) for n, e, t in m.iter_elems()]
    else:
        data = [model(rng, 1, relative=False), leaf(rng, 'z', relative=False)]
    for prefix in rng.sample(('', '    ', '        '), 2):
        text = p.do_pickle(data, prefix)
        try:
            new = p.load(io.StringIO(text))
        except Exception as err:
            mon.check(False, 'pickle-equal', '%s: %s' % (type(err).__name__, err), text)
            continue
        a, b = snap.snap(new), snap.snap(data)
        mon.check(a == b, 'pickle-equal', a, b, text)
        items = data if isinstance(data, list) else [data]
        news = new if isinstance(new, list) else [new]
        elems = [(x[1], y[1]) if isinstance(x, tuple) else (x, y) for x, y in zip(news, items)]
        mon.check(all(snap.outline(x, ppc=3) == snap.outline(y, ppc=3) for x, y in elems), 'pickle-equal', 'draws')
        mon.sig(text)
    # primitives inside containers
    data = {'a': [Point(*gen.xy(rng)), gen.vec(rng)], 'b': (gen.transform(rng), BBox(gen.pt(rng), gen.pt(rng))),
            'c': [wild_penbrush(rng), gen.control_point(rng)], "it's": 3.5}
    new = p.load(io.StringIO(p.do_pickle(data, '    ')))
    mon.check(snap.snap(new) == snap.snap(data), 'pickle-equal', 'primitives', new, data)


KINDS = [(dumps, 4500, 40000), (several, 1500, 8000), (reprs, 1800, 15000), (pickles, 2700, 20000)]
