"""C08: model queries leave the caller's transform and context untouched."""
from PIL import Image

from x7.geom.geom import BasePoint, Point
from x7.geom.transform import Transform
from x7.geom.drawing import DrawingContext
from x7.geom.model import Group, ElemWithHoles, ElemCurve, ElemP1P2, DumpContext
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring with fault injection: caller state snapshot before and after every query'
RULE = ('seeded models (nested groups, holed elements, all leaf kinds) queried through a caller matrix that already has '
        'pushed maps; every query is run to the end, abandoned at a random element, or made to raise at a random coordinate '
        'access (a point whose xy() raises on its n-th use); the deep snapshot of matrix, stack and context must not change. '
        'Non-trivial: the model has a group or holed element, or the query was cut short; distinct by operation and model.')
ASSUMPTIONS = ['an abandoned iteration counts as ended when its generator is closed or garbage-collected',
               'draw may paint the layer of the context it was given, nothing else']
REQUIRED = {'completed': 2600, 'raised': 500, 'abandoned': 500, 'context': 3000}


class Boom(Exception):
    pass


class Bomb(BasePoint):
    """A point whose n-th coordinate access raises"""
    def __init__(self, x, y, fuse):
        super().__init__(None)
        self.pos, self.fuse = (x, y), fuse

    def xy(self):
        if self.fuse[0] is not None:
            self.fuse[0] -= 1
            if self.fuse[0] < 0:
                raise Boom('boom')
        return self.pos

    def copy(self):
        return Bomb(self.pos[0], self.pos[1], self.fuse)

    def fixed(self):
        return Point(*self.xy())

    def __eq__(self, other):
        return self is other

    __hash__ = None


def leaves(e):
    if isinstance(e, Group):
        for v in e.elems.values():
            yield from leaves(v)
    elif isinstance(e, ElemWithHoles):
        yield e.outside
        yield from e.inside
    else:
        yield e


def arm(rng, model, fuse):
    """Replace a point of a random leaf by a bomb"""
    ls = list(leaves(model))
    if not ls:
        return False
    leaf = rng.choice(ls)
    if isinstance(leaf, ElemCurve):
        cp = rng.choice(leaf.control_points)
        cp.c = Bomb(*cp.c.xy(), fuse)
    elif isinstance(leaf, ElemP1P2):
        leaf.p1 = Bomb(*leaf.p1.xy(), fuse)
    return True


def context(rng, big):
    m = gen.transform(rng)
    for _ in range(rng.randint(0, 3)):
        m.push()
        gen.real_op(m, *gen.op(rng))
    size = (24, 20) if big else (1, 1)
    d = DrawingContext(Image.new('RGBA', size, 'white'), m, prod=rng.random() < 0.5)
    d.points_per_curve = rng.choice((3, 5))
    d.show_cps = rng.random() < 0.2
    return d


def state(d, layer=True, shadow=True):
    return (snap.snap(d.matrix), id(d.matrix), snap.snap(d.background), snap.snap(d.layer) if layer else None,
            snap.snap(d.shadow) if shadow else None, d.shadow_color, id(d.draw), d.prod, d.show_cps, d.points_per_curve, d.crop, d.debug,
            d.color, id(d.background), id(d.layer))


def consume(it):
    for _ in it:
        pass


def take(it, n):
    for _ in range(n):
        if next(it, None) is None:
            break


OPS = ('paths', 'control_paths', 'draw', 'transform', 'bbox', 'bbox_int', 'center', 'as_curves', 'iter_elems',
       'iter_elems_transformed', 'copy', 'dump', 'display', 'iter_no_matrix', 'shadow')


def run(op, e, d):
    if op in ('paths', 'control_paths', 'draw'):
        return getattr(e, op)(d)
    if op == 'shadow':
        return d.shadow_draw(e)
    if op == 'transform':
        return e.transform(d.matrix)
    if op in ('bbox', 'bbox_int', 'center', 'copy'):
        return getattr(e, op)()
    if op == 'as_curves':
        return e.as_curves()
    if op == 'iter_elems':
        return consume(e.iter_elems('root', d.matrix))
    if op == 'iter_elems_transformed':
        return consume(e.iter_elems_transformed('root', d.matrix)) if hasattr(e, 'iter_elems_transformed') else None
    if op == 'iter_no_matrix':
        return consume(e.iter_elems('root'))
    if op == 'dump':
        return e.dump(DumpContext())
    return e.display()


def model(rng):
    k = rng.random()
    if k < 0.6:
        return gen.group(rng, depth=rng.randint(1, 3))
    if k < 0.8:
        return gen.holed(rng)
    return gen.elem(rng)


def complete(rng, mon):
    e = model(rng)
    for op in rng.sample(OPS, 7):
        d = context(rng, op in ('draw', 'shadow'))
        parts = op != 'draw', op != 'shadow'
        before, eb = state(d, *parts), snap.snap(e)
        run(op, e, d)
        mon.count('completed')
        mon.check(state(d, *parts) == before, 'context', op, type(e).__name__)
        mon.check(snap.snap(e) == eb, 'model-unchanged', op, type(e).__name__)
        # and again: no residue accumulates
        run(op, e, d)
        mon.check(state(d, *parts) == before, 'context', op, 'second run')
    if isinstance(e, (Group, ElemWithHoles)):
        mon.sig(type(e).__name__, hash(repr(snap.snap(e))))
        mon.sample(repr(e)[:300])


def raising(rng, mon):
    fuse = [None]
    e = model(rng)
    if not arm(rng, e, fuse):
        return
    for op in rng.sample(OPS, 6):
        d = context(rng, op in ('draw', 'shadow'))
        parts = op != 'draw', op != 'shadow'
        before = state(d, *parts)
        fuse[0] = rng.choice((0, 0, 1, 2, 3, 5, rng.randint(0, 20)))
        try:
            run(op, e, d)
        except Boom as err:
            err.__traceback__ = None
            mon.count('raised')
            mon.sig('raise', op, type(e).__name__, hash(repr(e.name)), rng.random())
        fuse[0] = None
        mon.check(state(d, *parts) == before, 'context', 'after exception', op, type(e).__name__)
        # the context still works
        if op in ('paths', 'draw'):
            a = [p.points.tolist() for p in e.paths(d)]
            b = [p.points.tolist() for p in e.paths(d)]
            mon.check(a == b, 'usable-after', op)


def abandoned(rng, mon):
    e = gen.group(rng, depth=rng.randint(1, 3)) if rng.random() < 0.8 else gen.holed(rng)
    for op in ('iter_elems', 'iter_elems_transformed'):
        for how in ('close', 'del', 'break', 'raise', 'throw'):
            d = context(rng, False)
            before = state(d)
            it = getattr(e, op)('root', d.matrix)
            n = rng.randint(0, 4)
            if how == 'close':
                take(it, n)
                it.close()
            elif how == 'del':
                take(it, n)
                del it
            elif how == 'break':
                for i, _ in enumerate(it):
                    if i >= n:
                        break
                del it, _
            elif how == 'raise':
                def body(it):
                    for i, _ in enumerate(it):
                        if i >= n:
                            raise Boom('consumer')
                try:
                    body(it)
                except Boom as err:
                    err.__traceback__ = None
                del it
            else:
                take(it, n)
                try:
                    it.throw(Boom('thrown'))
                except (Boom, StopIteration) as err:
                    err.__traceback__ = None
                del it
            mon.count('abandoned')
            mon.check(state(d) == before, 'context', 'abandoned', op, how, n, type(e).__name__)
    # two interleaved iterations over different matrices do not disturb each other
    m1, m2 = gen.transform(rng), gen.transform(rng)
    s1, s2 = snap.snap(m1), snap.snap(m2)
    alone1 = [(n, snap.nums(m.as_6tuple())) for n, x, m in e.iter_elems('r', m1)]
    alone2 = [(n, snap.nums(m.as_6tuple())) for n, x, m in e.iter_elems('r', m2)]
    i1, i2 = e.iter_elems('r', m1), e.iter_elems('r', m2)
    got1, got2 = [], []
    for _ in range(len(alone1) + 1):
        for it, out in ((i1, got1), (i2, got2)):
            r = next(it, None)
            if r:
                out.append((r[0], snap.nums(r[2].as_6tuple())))
    mon.check(got1 == alone1 and got2 == alone2, 'interleaved', len(alone1))
    mon.check(snap.snap(m1) == s1 and snap.snap(m2) == s2, 'context', 'interleaved')
    mon.sig('abandon', hash(repr(snap.snap(e))))


def no_draw_space_leak(rng, mon):
    """Long mixed sequences over one shared context"""
    d = context(rng, True)
    before = state(d, False, False)
    es = [model(rng) for _ in range(3)]
    for _ in range(12):
        e = rng.choice(es)
        op = rng.choice(OPS)
        run(op, e, d)
        mon.count('completed')
        mon.check(state(d, False, False) == before, 'context', 'sequence', op)
    for e in es:
        it = e.iter_elems('x', d.matrix)
        next(it, None)
        del it
    mon.check(state(d, False, False) == before, 'context', 'sequence end')
    mon.sig('seq', rng.random())
    assert isinstance(d.matrix, Transform)


KINDS = [(complete, 2100, 12000), (raising, 2100, 12000), (abandoned, 900, 5000), (no_draw_space_leak, 450, 2500)]
