"""C15: copies are independent and restore brings back the copied state."""
from x7.geom.geom import Point, PointRelative, Vector
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.model import ElemCurve, ElemP1P2, ElemRectangle, ElemEllipse, ElemRectangleRounded, Group, ElemWithHoles, ControlPath
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: shadow-state snapshots over randomised copy/mutate/restore histories'
RULE = ('random histories of copies, in-place edits of either side (points, handles, kinds, style, name, transform, radius, holes, '
        'membership) and restores over every element kind, control points and transforms; after every step the snapshot of every '
        'side that was not touched must be unchanged, and a restore must reproduce the snapshot taken at copy time. '
        'Non-trivial: at least three edits; distinct by history.')
ASSUMPTIONS = ['the parts of a holed element carry its style, filled elements are closed',
               'point names are labels of a point object and not part of the copied geometry',
               'a group copy shares its members by design and owns only the tables, flags and transform',
               'a curve whose number of control points changed since the copy refuses to be restored']
REQUIRED = {'copy-equals': 2500, 'copy-independent': 4000, 'original-independent': 3900, 'restored': 1500, 'describes': 700,
            'group-copy': 1500, 'control-point': 1500, 'equality': 6000, 'difference': 6000}


# -- state without point names -----------------------------------------------------------------------------------------
def strip(s):
    """Drop point names from a snapshot and show every kind of point by its position"""
    if isinstance(s, tuple):
        if len(s) == 3 and s[0] == 'P':
            return 'P', s[1]
        return tuple(strip(v) for v in s)
    return s


def detach(e):
    return strip(snap.snap(e))


def geo(e):
    """Everything observable about a leaf or holed element"""
    if isinstance(e, ElemCurve):
        body = tuple(gen.cp_tuple(cp) + (cp.kind,) for cp in e.control_points)
    elif isinstance(e, ElemP1P2):
        body = (e.p1.xy(), e.p2.xy(), getattr(e, 'radius', None))
    elif isinstance(e, ElemWithHoles):
        body = (geo(e.outside), tuple(geo(x) for x in e.inside))
    else:
        raise TypeError(e)
    return (type(e).__name__, e.name, snap.snap(e.penbrush), e.closed, snap.snap(e.xform), body,
            tuple(map(tuple, snap.outline_pts(e, ppc=4))), e.bbox().as_tuple() if body else None)


def group_state(g):
    return (g.name, snap.snap(g.penbrush), g.closed, g.hidden, snap.snap(g.xform),
            tuple((k, id(v)) for k, v in g.elems.items()), tuple((k, id(v)) for k, v in g.points.items()))


# -- edits -------------------------------------------------------------------------------------------------------------
def edit_cp(rng, cp):
    j = rng.randrange(7)
    if j == 0:
        cp.c.set(gen.pt(rng))
    elif j == 1:
        cp.c.setxy(*gen.xy(rng))
    elif j == 2:
        cp.dl.set(gen.vec(rng))
    elif j == 3:
        cp.dr.setxy(gen.coord(rng), gen.coord(rng))
    elif j == 4:
        cp.dl, cp.dr = gen.vec(rng), gen.vec(rng)
    elif j == 5:
        cp.kind = rng.choice(gen.KINDS)
    else:
        cp.c = gen.pt(rng)


def edit_xform(rng, e):
    j = rng.randrange(4)
    if j == 0:
        e.xform.translate(gen.coord(rng), gen.coord(rng))
    elif j == 1:
        e.xform.rotate(gen.angle(rng)).scale(1.5, 0.5)
    elif j == 2:
        e.xform.reset().compose(Transform(gen.mat6(rng)))
    else:
        e.xform = gen.transform(rng)


def edit(rng, e, structure=False, part=False):
    j = rng.random()
    if j < 0.1:
        e.name = gen.name(rng)
    elif j < 0.2:
        if not part:
            e.penbrush = gen.penbrush(rng, filled=None if all(
                x.closed for x in ([e, e.outside] + e.inside if isinstance(e, ElemWithHoles) else [e])) else False)
            if isinstance(e, ElemWithHoles):        # the parts of a holed element share its style
                for x in [e.outside] + e.inside:
                    x.penbrush = e.penbrush
    elif j < 0.25:
        if not isinstance(e, ElemP1P2) and not e.penbrush.filled:
            e.closed = not e.closed
    elif j < 0.45:
        edit_xform(rng, e)
    elif isinstance(e, ElemCurve):
        if structure and rng.random() < 0.2:
            e.control_points.append(gen.control_point(rng))
        else:
            edit_cp(rng, rng.choice(e.control_points))
    elif isinstance(e, ElemRectangleRounded) and j < 0.6:
        e.radius = rng.choice((0, 1, 7.5, 100))
    elif isinstance(e, ElemP1P2):
        p = rng.choice((e.p1, e.p2))
        k = rng.randrange(3)
        if k == 0:
            p.set(gen.pt(rng))
        elif k == 1:
            p.setxy(*gen.xy(rng))
        else:
            e.bbox_int_update(gen.elem(rng, 'rect').bbox_int())
    elif isinstance(e, ElemWithHoles):
        k = rng.random()
        if k < 0.35:
            edit(rng, e.outside, part=True)
        elif k < 0.7 and e.inside:
            edit(rng, rng.choice(e.inside), part=True)
        elif k < 0.8 and e.inside:
            e.inside.pop(rng.randrange(len(e.inside)))
        elif k < 0.9:
            e.inside.append(gen.elem(rng, 'rect', pb=e.penbrush))
        else:
            e.outside = gen.elem(rng, 'ellipse', pb=e.penbrush)


def element(rng):
    return gen.holed(rng) if rng.random() < 0.3 else gen.elem(rng)


def describe(e):
    return repr(e), str(e)


def elements(rng, mon):
    e = element(rng)
    copies = []         # (copy, its state, description)
    steps = []
    for _ in range(rng.randint(4, 14)):
        now = geo(e)
        k = rng.random()
        if k < 0.25 or not copies:
            c = e.copy()
            mon.check(c is not e and geo(c) == now, 'copy-equals', e, c)
            mon.check(type(c) is type(e) and c == e and e == c, 'copy-equals', 'eq', e, c)
            copies.append([c, now, describe(e)])
            steps.append('copy')
        elif k < 0.6:
            edit(rng, e)
            steps.append('edit')
        elif k < 0.8:       # edit a copy
            item = rng.choice(copies)
            edit(rng, item[0])
            item[1], item[2] = geo(item[0]), describe(item[0])
            mon.check(geo(e) == now, 'original-independent', e, steps)
            steps.append('edit copy')
        else:               # restore
            item = rng.choice(copies)
            steps.append('restore')
            e.restore(item[0])
            mon.check(geo(e) == item[1], 'restored', e, item[0], steps)
            mon.check(describe(e) == item[2], 'describes', describe(e), item[2])
            mon.check(e == item[0], 'restored', 'eq', e, item[0])
        for c, st, _ in copies:
            mon.check(geo(c) == st, 'copy-independent', type(e).__name__, c, steps)
    # at the end: every copy still restores the state it had, each independent of the others
    for c, st, de in copies:
        e.restore(c)
        mon.check(geo(e) == st, 'restored', 'final', e, c, steps)
        for _ in range(3):
            edit(rng, e)
        mon.check(geo(c) == st, 'copy-independent', 'after restore', c, steps)
        e.restore(c)
        mon.check(geo(e) == st and describe(e) == de, 'restored', 'again', e, c, steps)
        after = geo(e)
        for _ in range(3):
            edit(rng, c, structure=True)
        mon.check(geo(e) == after, 'original-independent', 'after restore', e, steps)
    if steps.count('edit') + steps.count('edit copy') >= 3:
        mon.sig(steps, detach(e))
        mon.sample(type(e).__name__, steps)


def structure(rng, mon):
    """Changing the list of control points of one side never shows on the other; copies of copies, transform results"""
    e = element(rng)
    st = geo(e)
    others = [e.copy(), e.copy().copy()]
    for o in others:
        mon.check(geo(o) == st, 'copy-equals', 'copy of copy', e)
    for _ in range(4):
        i = rng.randrange(2)
        edit(rng, others[i], structure=True)
        if isinstance(others[i], ElemCurve) and rng.random() < 0.4 and len(others[i].control_points) > 1:
            others[i].add_one()
        mon.check(geo(e) == st, 'original-independent', 'structure', e)
    a, b = (geo(o) for o in others)
    edit(rng, e, structure=True)
    mon.check((geo(others[0]), geo(others[1])) == (a, b), 'copy-independent', 'structure', e)
    if isinstance(e, ElemCurve):
        f = e.fixed()
        before = geo(f)
        edit(rng, e, structure=True)
        mon.check(geo(f) == before, 'copy-independent', 'fixed', f)
    mon.sig('struct', st)


def relative(rng, mon):
    """Curves built on points of other objects: a copy is an absolute snapshot of the moment"""
    base = gen.pt(rng)
    cps = [ControlPoint(PointRelative(*gen.xy(rng), base), gen.vec(rng), gen.vec(rng)) for _ in range(gen.some(rng, 1, 4, 30))]
    e = ElemCurve('r', gen.penbrush(rng, False), cps, closed=False, xform=gen.transform(rng))
    c, f = e.copy(), e.fixed()
    st = geo(c)
    mon.check(st == geo(e) == geo(f), 'copy-equals', 'relative', e)
    base.setxy(*gen.xy(rng))
    mon.check(geo(c) == st and geo(f) == st, 'copy-independent', 'base moved', c)
    e.restore(c)
    mon.check(geo(e) == st, 'restored', 'relative', e)
    edit_cp(rng, c.control_points[0])
    mon.check(geo(e) == st, 'original-independent', 'relative')
    mon.sig('rel', st)


def control_points(rng, mon):
    def state(cp):
        return gen.cp_tuple(cp) + (cp.kind,)
    cp = gen.control_point(rng)
    cp.c.name = rng.choice((None, 'n'))
    copies = []
    for _ in range(rng.randint(4, 12)):
        now = state(cp)
        k = rng.random()
        if k < 0.3 or not copies:
            c = cp.copy() if rng.random() < 0.7 else cp.fixed()
            mon.check(c is not cp and state(c) == now, 'control-point', 'copy', cp, c)
            mon.check(cp.copy() == cp, 'control-point', 'copy eq', cp)
            copies.append([c, now])
        elif k < 0.6:
            edit_cp(rng, cp)
        elif k < 0.8:
            item = rng.choice(copies)
            edit_cp(rng, item[0])
            item[1] = state(item[0])
            mon.check(state(cp) == now, 'original-independent', 'control point', cp)
        else:
            item = rng.choice(copies)
            cp.restore(item[0])
            mon.check(state(cp) == item[1], 'control-point', 'restore', cp, item)
        for c, st in copies:
            mon.check(state(c) == st, 'copy-independent', 'control point', c, st)
    # transforms
    t = gen.transform(rng)
    for _ in range(rng.randint(0, 2)):
        t.push()
        gen.real_op(t, *gen.op(rng))
    c = t.copy()
    st = gen.aff_of(t)
    mon.check(gen.aff_of(c) == st and c == t, 'copy-equals', 'transform', t)
    whole = snap.snap(t)
    gen.real_op(c, *gen.op(rng))
    c.push().translate(3, 4)
    c.pop()
    mon.check(snap.snap(t) == whole, 'original-independent', 'transform')
    st = gen.aff_of(c)
    gen.real_op(t, *gen.op(rng))
    t.reset()
    mon.check(gen.aff_of(c) == st, 'copy-independent', 'transform')
    # points and vectors
    for p in (gen.pt(rng, 'nm'), gen.pt(rng)):
        q = p.copy()
        mon.check(q == p and q.xy() == p.xy() and q.name == p.name, 'copy-equals', 'point', p, q)
        v = p.xy()
        p.setxy(*gen.xy(rng))
        mon.check(q.xy() == v, 'copy-independent', 'point')
        p.restore(q)
        mon.check(p.xy() == v, 'restored', 'point')
        q.set(Point(1e3, 1e3))
        mon.check(p.xy() == v, 'original-independent', 'point')
    mon.sig('cp', state(cp), st)


def edit_group(rng, g):
    """Any change of a group's own tables, flags, style or transform (members and points may share names)"""
    k = rng.random()
    names = [n for n in list(g.points) + list(g.elems) if '.' not in n]
    if k < 0.25:
        free = [n for n in names if n not in g.elems]
        g.add(rng.choice(free) if free and rng.random() < 0.5 else gen.uniq(rng, set(g.elems)), gen.elem(rng))
    elif k < 0.35 and g.elems:
        g.elems.pop(rng.choice(list(g.elems)))
    elif k < 0.4 and g.elems:           # drawn last from now on
        n = rng.choice(list(g.elems))
        g.elems[n] = g.elems.pop(n)
    elif k < 0.45 and g.elems:          # another element under the same name
        n = rng.choice(list(g.elems))
        g.elems[n] = gen.elem(rng, nm=n)
    elif k < 0.5 and g.points:
        n = rng.choice(list(g.points))
        if rng.random() < 0.5:
            g.points[n] = gen.pt(rng, n)
        else:
            del g.points[n]
    elif k < 0.55:
        g.hidden = not g.hidden
    elif k < 0.6:
        g.closed = not g.closed
    elif k < 0.75:
        edit_xform(rng, g)
    elif k < 0.82:
        g.name = gen.name(rng)
    elif k < 0.87:
        g.penbrush = gen.penbrush(rng, False)
    else:
        free = [n for n in names if n not in g.points]
        n = rng.choice(free) if free and rng.random() < 0.5 else 'p%d' % len(g.points) + str(rng.random()).replace('.', '_')
        g.add_pt(n, gen.pt(rng))


def groups(rng, mon):
    g = gen.group(rng, depth=1, hidden=True)
    g.closed = rng.random() < 0.5
    for i in range(rng.randint(0, 2)):
        g.add_pt('pt%d' % i, gen.pt(rng))
    copies = []
    n = 0
    for _ in range(rng.randint(4, 12)):
        now, k = group_state(g), rng.random()
        if k < 0.3 or not copies:
            c = g.copy()
            mon.check(group_state(c) == now and c == g and type(c) is Group, 'group-copy', 'copy', g, c)
            mon.check(snap.outline(c, ppc=3) == snap.outline(g, ppc=3), 'group-copy', 'draws')
            copies.append([c, now])
        elif k < 0.6:
            edit_group(rng, g)
            n += 1
        elif k < 0.8:
            item = rng.choice(copies)
            edit_group(rng, item[0])
            item[1] = group_state(item[0])
            mon.check(group_state(g) == now, 'group-copy', 'original-independent', g)
            n += 1
        else:
            item = rng.choice(copies)
            g.restore(item[0])
            mon.check(group_state(g) == item[1], 'group-copy', 'restore', g, item[0])
            mon.check(snap.outline(g, ppc=3) == snap.outline(item[0], ppc=3), 'group-copy', 'restored draws')
        for c, st in copies:
            mon.check(group_state(c) == st, 'group-copy', 'copy-independent', c)
    if n >= 2:
        mon.sig('group', n, repr(g))
    assert Transform and Vector


def compared(rng, mon):
    """Equality sees every part: one change of one side makes the two differ, undoing it makes them equal again"""
    e = gen.group(rng, depth=1, hidden=True) if rng.random() < 0.25 else element(rng)
    if isinstance(e, Group):
        e.add_pt('origin', gen.pt(rng))
    c = e.copy()

    def same(what):
        mon.check(c == e and e == c and not c != e and not e != c, 'equality', what, e, c)

    def differ(what):
        mon.check(c != e and e != c and not c == e and not e == c, 'difference', what, type(e).__name__, e, c)

    same('copy')
    far = rng.choice((1e-6, 1.0, 30.0))
    step = Vector(rng.choice((far, -far, 0)), rng.choice((far, -far)))
    pb = e.penbrush
    changes = [('name', e.name + '!'), ('xform', c.xform.copy().translate(step.x, step.y)),
               ('xform', c.xform.copy().scale(1.5, 1.5)),
               ('penbrush', PenBrush(Pen((9, 8, 7, 255), 77), pb.brush)), ('penbrush', PenBrush(pb.pen, Brush((9, 8, 7, 255)))),
               ('penbrush', PenBrush(Pen(pb.pen.brush.color, pb.pen.width + 1) if pb.pen else Pen('black'), pb.brush)),
               ('closed', not e.closed)]
    if isinstance(e, ElemP1P2):
        changes += [('p1', c.p1 + step), ('p2', c.p2 + step)]
    if isinstance(e, ElemRectangleRounded):
        changes.append(('radius', e.radius + far))
    if isinstance(e, Group):
        n = gen.uniq(rng, set(e.elems))
        changes += [('hidden', not e.hidden), ('elems', dict(c.elems, **{n: gen.elem(rng, nm=n)})), ('elems', {}),
                    ('points', {}), ('points', dict(c.points, more=gen.pt(rng))), ('points', dict(c.points, origin=c.points['origin'] + step))]
        some = rng.choice(list(c.elems)) if c.elems else None
        if some:
            other = gen.elem(rng, nm=some + '!')
            changes += [('elems', {k: v for k, v in c.elems.items() if k != some}), ('elems', dict(c.elems, **{some: other}))]
    if isinstance(e, ElemWithHoles):
        moved = e.outside.copy()
        moved.xform.translate(step.x, step.y)
        changes += [('outside', moved), ('inside', c.inside + [e.outside.copy()])]
        if e.inside:
            i = rng.randrange(len(e.inside))
            moved = e.inside[i].copy()
            moved.xform.translate(step.x, step.y)
            changes += [('inside', c.inside[:i] + [moved] + c.inside[i+1:]), ('inside', c.inside[:i] + c.inside[i+1:])]
    for what, value in changes:
        if isinstance(value, dict) and value == getattr(c, what):
            continue
        old = getattr(c, what)
        setattr(c, what, value)
        differ(what)
        setattr(c, what, old)
        same(what)
    if isinstance(e, ElemCurve):
        c.control_points.append(c.control_points[-1].copy())
        differ('more points')
        c.control_points.pop()
        cp = rng.choice(c.control_points)
        for what, value in (('c', cp.c + step), ('dl', cp.dl + step), ('dr', cp.dr + step),
                            ('kind', rng.choice([k for k in gen.KINDS if k != cp.kind]))):
            old, was = getattr(cp, what), cp.copy()
            mon.check(was == cp and not was != cp, 'equality', 'control point', cp)
            setattr(cp, what, value)
            if gen.cp_tuple(was) + (was.kind,) != gen.cp_tuple(cp) + (cp.kind,):    # a tiny step may vanish in rounding
                differ(what)
                mon.check(was != cp and cp != was and not was == cp, 'difference', 'control point', what, was, cp)
            setattr(cp, what, old)
            same(what)
        mon.check(ControlPath(e.control_points) == ControlPath(c.control_points), 'equality', 'control path', e)
        mon.check(ControlPath(e.control_points) != ControlPath(c.control_points[1:]) and
                  ControlPath(e.control_points) != list(c.control_points), 'difference', 'control path', e)
    # other kinds of things
    if isinstance(e, ElemP1P2):
        for kind in (ElemRectangle, ElemEllipse):
            f = kind(e.name, e.penbrush, e.p1, e.p2, xform=e.xform.copy())
            mon.check((f == e) == (e == f) == (type(e) is kind), 'difference', 'class', e, f)
    mon.check(e != None and e != e.name and not e == 1 and e != gen.pt(rng), 'difference', 'other things', e)  # noqa: E711
    mon.sig('compared', repr(e), step.xy())


KINDS = [(compared, 1200, 14000), (elements, 2400, 30000), (structure, 1000, 10000), (relative, 600, 6000), (control_points, 1000, 10000),
         (groups, 1000, 12000)]
