"""C29: read-only operations never modify their operands, and what they return does not alias them."""
import io
import random
import zlib
from contextlib import redirect_stdout

import numpy as np
from PIL import Image
from x7.geom import anim, bezier, drawing, imagehelp, model, utils
from x7.geom.anim import Builder
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Brush, ColorsByShape, Pen, PenBrush, PensByShape
from x7.geom.drawing import DrawingContext
from x7.geom.geom import BasePoint, BBox, Line, Point, PointCalc, PointRelative, Vector, VectorRelative, polygon_area
from x7.geom.model import (DumpContext, Elem, ElemCurve, ElemEllipse, ElemP1P2, ElemRectangle, ElemRectangleRounded, ElemWithHoles,
                           Group, GroupBuilder)
from x7.geom.transform import Transform
from x7.geom.vec_field import Mesh, VectorField
from x7.testing import support
from x7.geom.testing import PicklerExtensionGeom
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: deep state snapshots of every operand around each operation and after spoiling its result'
RULE = ('random histories of read-only operations over a shared pool of operands (points of all kinds, vectors, boxes, lines, transforms, '
        'control points, curves, elements, groups, styles, meshes, fields, images): after every operation the snapshot of the whole pool '
        'must be unchanged; then the result is edited in place, the pool must still be unchanged, and repeating the operation must '
        'give the first result again. Non-trivial: an operation with operands; distinct by operation and result.')
ASSUMPTIONS = ['reversed control points, the control points of curves, the corners of rectangles, group members, lines and fields '
               'on a mesh share the parts they are built from and are not spoiled',
               'names of operations that edit their operand by contract (set, grow, sort, push, restore, add, ...) are not in the tables']
REQUIRED = {'operands-intact': 20200, 'result-detached': 18800, 'repeatable': 20200}

SHARE = 'share'         # the result is handed out or shares parts by design: do not spoil it
OPS = {}


def ops(theme, **table):
    OPS.setdefault(theme, {}).update(table)


# -- spoiling results --------------------------------------------------------------------------------------------------
def spoil(obj, depth=0):
    """Edit everything in a result in place"""
    if depth > 6:
        return
    if isinstance(obj, Point):
        obj.setxy(obj.x + 1e3, -777.0)
        obj.name = 'spoiled'
    elif isinstance(obj, PointRelative):
        obj.dx, obj.dy = 1e3, -777.0
        obj.name = 'spoiled'
    elif isinstance(obj, PointCalc):
        obj.scale = 55.0
    elif isinstance(obj, VectorRelative):
        pass
    elif isinstance(obj, Vector):
        obj.setxy(obj.x - 1e3, 777.0)
    elif isinstance(obj, BBox):
        if not obj.is_none:
            obj.xl, obj.xh = -9e5, 9e5
        obj.grow(Point(1e6, -1e6))
    elif isinstance(obj, ControlPoint):
        for v in (obj.c, obj.dl, obj.dr):
            spoil(v, depth + 1)
        obj.kind = 'spoiled'
        obj.c = Point(1, 1)
    elif isinstance(obj, Transform):
        obj.translate(1e3, 5).rotate(33).scale(2, 3)
        obj.push()
    elif isinstance(obj, ElemCurve):
        spoil(obj.control_points, depth + 1)
        spoil_elem(obj, depth)
    elif isinstance(obj, ElemP1P2):
        spoil(obj.p1, depth + 1)
        spoil(obj.p2, depth + 1)
        spoil_elem(obj, depth)
    elif isinstance(obj, ElemWithHoles):
        spoil(obj.outside, depth + 1)
        spoil(obj.inside, depth + 1)
        spoil_elem(obj, depth)
    elif isinstance(obj, Group):            # members are shared by design
        obj.elems.clear()
        obj.points.clear()
        obj.hidden = not obj.hidden
        spoil_elem(obj, depth)
    elif isinstance(obj, VectorField):
        obj.vx += 1e3
        obj.vy *= -7
    elif isinstance(obj, np.ndarray):
        if obj.dtype.kind == 'f':
            obj += 1e3
    elif isinstance(obj, Image.Image):
        obj.paste('violet' if obj.mode in ('RGB', 'RGBA') else 7, (0, 0) + obj.size)
    elif isinstance(obj, list):
        for v in obj:
            spoil(v, depth + 1)
        obj.append('spoiled')
        obj.reverse()
    elif isinstance(obj, tuple):
        for v in obj:
            spoil(v, depth + 1)
    elif isinstance(obj, dict):
        for v in obj.values():
            spoil(v, depth + 1)
        obj.clear()
    elif isinstance(obj, model.ControlPath):
        spoil(obj.points, depth + 1)
    elif isinstance(obj, model.Path):
        obj.closed = not obj.closed
        obj.extend(obj.points, closed=True)
        obj.penbrush = None


def spoil_elem(e, depth):
    spoil(e.xform, depth + 1)
    e.name = 'spoiled'
    e.penbrush = PenBrush('violet')
    e.closed = not e.closed


# -- the driver --------------------------------------------------------------------------------------------------------
def run_history(rng, mon, theme, env, steps):
    """Run random operations of a theme over the pool env"""
    table = OPS[theme]
    names = sorted(table)
    before = snap.snap(env)
    for _ in range(steps):
        name = rng.choice(names)
        entry = table[name]
        func, share = entry if isinstance(entry, tuple) else (entry, None)
        seed = rng.random()
        with redirect_stdout(io.StringIO()):
            result = func(random.Random(seed), env)
        mon.check(snap.snap(env) == before, 'operands-intact', theme, name, lambda: diff(before, snap.snap(env)))
        first = snap.snap(result)
        if share != SHARE:
            spoil(result)
            mon.check(snap.snap(env) == before, 'result-detached', theme, name, lambda: diff(before, snap.snap(env)))
        with redirect_stdout(io.StringIO()):
            again = func(random.Random(seed), env)
        mon.check(snap.snap(again) == first, 'repeatable', theme, name, lambda: diff(first, snap.snap(again)))
        mon.sig(theme, name, zlib.crc32(repr(first).encode('utf8', 'replace')))


def diff(a, b, path=''):
    """Where two snapshots differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, '%s/%d' % (path, i))
    return '%s: %.150r -> %.150r' % (path, a, b)


# -- geometry ----------------------------------------------------------------------------------------------------------
def pick(r, env, *keys):
    return r.choice([v for k in keys for v in env[k]])


def pt(r, e):
    return pick(r, e, 'pts')


def vec(r, e):
    return pick(r, e, 'vecs')


def box(r, e):
    return pick(r, e, 'boxes')


def full(r, e):
    return r.choice([b for b in e['boxes'] if not b.is_none])


def line(r, e):
    return pick(r, e, 'lines')


def xf(r, e):
    return pick(r, e, 'xforms')


def solid_vec(r, e):
    return r.choice([v for v in e['vecs'] if v.length() > 0])


def trying(func, *exc):
    """The result or the name of the documented refusal"""
    try:
        return func()
    except exc as err:
        return 'refused', type(err).__name__


def geometry_env(rng):
    base = [gen.pt(rng, 'p'), gen.pt(rng), Point(*gen.xy(rng), 'fixed_q')]
    rel = PointRelative(gen.coord(rng), gen.coord(rng), base[0], rng.choice((None, 'rel')))
    calc = PointCalc(PointRelative(gen.coord(rng), 3, base[1]), 0.5, 'calc')
    pts = base + [rel, calc, PointRelative(1, 2, rel, 'deep')]
    vecs = [gen.vec(rng), Vector(3, -4), Vector(), VectorRelative(base[0], base[1]), VectorRelative(rel, base[2])]
    boxes = [BBox(base[0], base[1]), BBox(*gen.xy(rng), *gen.xy(rng)), BBox(-20, -20, 30, 30), BBox(None)]
    lines = [Line(base[0], base[1]), Line(base[2], Vector(3, 5)), Line.from_pts(rel, base[1]), Line(gen.pt(rng), vecs[3])]
    t1 = gen.transform(rng)
    t2 = gen.transform(rng).push().translate(3, 4).push().rotate(20)
    return {'pts': pts, 'vecs': vecs, 'boxes': boxes, 'lines': lines, 'xforms': [t1, t2, Transform()],
            'path': [gen.pt(rng) for _ in range(4)], 'mixed': list(pts), 'xys': [gen.xy(rng) for _ in range(4)],
            'flat': [gen.coord(rng) for _ in range(6)], 'np': np.array([[1., 2.], [3., 4.], [1., 1.]])}


def point_arith(r, e):
    p, q, v = pt(r, e), pt(r, e), vec(r, e)
    return [p + v, v + p, p - q, p - v, -p, p.add_vector(v), p.mid(q)]


def vector_arith(r, e):
    v, w, k = vec(r, e), vec(r, e), r.choice((0, 2, -1.5))
    return [v + w, v - w, v * k, k * v, -v, v / 4, v.rotate(r.uniform(-90, 90)), v.normal(), v.sub_vector(pt(r, e))]


def augmented(r, e):
    """Augmented assignment rebinds, it does not edit the operand"""
    p, v, w, b = pt(r, e), vec(r, e), vec(r, e), box(r, e)
    p += w
    p -= w
    v += w
    v -= w
    v *= 2
    v /= 4
    b += box(r, e)
    ln = line(r, e)
    ln += w
    ln -= w
    return [p, v, b]


ops('geometry',
    point_arith=point_arith, vector_arith=vector_arith, augmented=augmented,
    point_copy=lambda r, e: [pt(r, e).copy(), pt(r, e).fixed(), pt(r, e).v],
    point_round=lambda r, e: [round(pt(r, e)), round(pt(r, e), 1), pt(r, e).round(), pt(r, e).round(2)],
    point_text=lambda r, e: [str(pt(r, e)), repr(pt(r, e)), str(vec(r, e)), repr(vec(r, e)), str(box(r, e)), repr(box(r, e)),
                             str(line(r, e)), repr(line(r, e)), str(xf(r, e)), repr(xf(r, e))],
    point_query=lambda r, e: [pt(r, e).xy(), list(pt(r, e)), pt(r, e).x, pt(r, e).y, pt(r, e) == pt(r, e), pt(r, e).close(pt(r, e))],
    parse=(lambda r, e: [BasePoint.parse(e['mixed']), BasePoint.parse(e['xys']), BasePoint.parse(e['flat']),
                         BasePoint.parse(e['xys'] + e['flat'] + e['path'])], SHARE),
    area=lambda r, e: [polygon_area(e['path']), polygon_area(e['mixed'])],
    relative=lambda r, e: [PointRelative.fromxy(*gen.xy(r), pt(r, e)).fixed()],
    vector_copy=lambda r, e: [vec(r, e).copy(), vec(r, e).fixed(), vec(r, e).p],
    vector_round=lambda r, e: [round(vec(r, e)), round(vec(r, e), 1), vec(r, e).round(), vec(r, e).round(3)],
    vector_query=lambda r, e: [vec(r, e).dot(vec(r, e)), vec(r, e).cross(vec(r, e)), vec(r, e).length(), vec(r, e).angle(),
                               bool(vec(r, e)), vec(r, e).xy(), list(vec(r, e)), vec(r, e) == vec(r, e), vec(r, e).close(vec(r, e))],
    vector_unit=lambda r, e: [solid_vec(r, e).unit(), solid_vec(r, e).unit().normal()],
    box_build=lambda r, e: [BBox(pt(r, e), pt(r, e)), BBox(full(r, e).as_tuple()), BBox(None)],
    box_sum=lambda r, e: [box(r, e) + box(r, e), BBox(None) + box(r, e), box(r, e) + BBox(None), sum(e['boxes'], BBox(None))],
    box_copy=lambda r, e: [box(r, e).copy(), box(r, e).copy()],
    box_expand=lambda r, e: [full(r, e).expand(2), full(r, e).expand(1, r.uniform(0, 3)), full(r, e).expand(0), round(full(r, e))],
    box_meet=lambda r, e: [box(r, e).intersection(box(r, e)), full(r, e).intersection(full(r, e))],
    box_points=lambda r, e: [getattr(full(r, e), k) for k in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center')],
    box_query=lambda r, e: [box(r, e).width, box(r, e).height, box(r, e).area(), box(r, e).size(), box(r, e).is_none, box(r, e).is_empty,
                            box(r, e).as_tuple(), list(box(r, e)), full(r, e)[r.randrange(4)], box(r, e) == box(r, e)],
    box_relations=lambda r, e: [full(r, e).contains(full(r, e)), full(r, e).overlaps(full(r, e)), box(r, e).touches(box(r, e)),
                                box(r, e).touches_side(box(r, e)), box(r, e).touches_pt(pt(r, e)), box(r, e).contains_pt(pt(r, e))],
    box_transformed=lambda r, e: [full(r, e).transformed(xf(r, e))],
    line_query=lambda r, e: [line(r, e).midpoint, trying(lambda: line(r, e).closest(pt(r, e)), ZeroDivisionError), line(r, e).segment_bbox(), line(r, e).parallel(line(r, e)),
                             line(r, e) == line(r, e)],
    line_build=(lambda r, e: [line(r, e) + vec(r, e), line(r, e) - vec(r, e), Line.from_pts(pt(r, e), pt(r, e)), line(r, e).p1,
                              line(r, e).p2], SHARE),
    line_meet=lambda r, e: [trying(lambda: line(r, e).intersection(line(r, e)), Exception),
                            trying(lambda: line(r, e).segment_intersection(line(r, e)), Exception)],
    xform_apply=lambda r, e: [xf(r, e).transform(*gen.xy(r)), xf(r, e).transform_pt(pt(r, e)), xf(r, e).transform_pt(pt(r, e), False),
                              xf(r, e).transform_pts(e['path']), xf(r, e).transform_pts(e['mixed']), xf(r, e).transform_pts(e['xys']),
                              xf(r, e).transform_pts(e['path'], flatten=True), xf(r, e).transform_np_pts(e['np'])],
    xform_unapply=lambda r, e: [xf(r, e).untransform(*gen.xy(r)), xf(r, e).untransform_pt(pt(r, e)), xf(r, e).untransform_pts(e['xys'])],
    xform_query=lambda r, e: [xf(r, e).as_6tuple(), xf(r, e).scale_vals(), xf(r, e).transform_width(2.5), xf(r, e).is_simple(),
                              xf(r, e) == xf(r, e), xf(r, e).simplify(), xf(r, e).copy()],
    xform_operand=lambda r, e: [Transform().rotate(20).compose(xf(r, e)), Transform().scale(2, 3).compose_outer(xf(r, e)),
                                Transform().rotate_about(30, pt(r, e)), Transform().scale_bbox(BBox(0, 0, 3, 4), BBox(1, 2, 9, 5))],
    xform_nested=lambda r, e: nested(r, e),
    xform_set=lambda r, e: set_from(r, e),
    xform_fresh=lambda r, e: [Transform.identity(), Transform.canvas_fit((10, 20), 2), Transform(), BBox(None), Vector(), Vector().fixed()],
    utils_rotate=lambda r, e: [utils.path_rotate(e['path'], 30, True), utils.path_rotate(e['mixed'], 30),
                               utils.path_rotate_ccw(e['path'], 0, True), utils.path_rotate_ccw(e['mixed'], 90)],
    utils_move=lambda r, e: [utils.path_translate(e['path'], r.choice((pt(r, e), vec(r, e))), True),
                             utils.path_translate(e['mixed'], r.choice((pt(r, e), vec(r, e)))), utils.path_to_xy(e['mixed']),
                             utils.path_from_xy(e['xys']), utils.check_point_list(e['mixed'])],
    utils_shapes=lambda r, e: [utils.circle(3), utils.circle(3, pt(r, e)), utils.cross(2), utils.cross(2, pt(r, e)), utils.plus(2),
                               utils.plus(2, pt(r, e)), utils.arc(3, 10, 80), utils.arc(3, 10, 80, pt(r, e)),
                               trying(lambda: utils.arc2p(500, pt(r, e), pt(r, e)), ValueError)])


def nested(r, e):
    """A with-block on a pushed transform ends with the transform as it was, and only the popped state is visible inside"""
    t = xf(r, e)
    with t.push().translate(*gen.xy(r)).rotate(gen.angle(r)):
        first = t.transform(1, 2)
        with t.push().scale(2, 3):
            second = t.transform(1, 2)
    return [first, second]


def set_from(r, e):
    t = Transform()
    t.set_matrix(xf(r, e))
    return [t]


def geometry(rng, mon):
    run_history(rng, mon, 'geometry', geometry_env(rng), 25)


# -- curves ------------------------------------------------------------------------------------------------------------
def curve_env(rng):
    cps = gen.cps(rng, rng.randint(3, 5))
    o = gen.pt(rng, 'o')
    rel = ControlPoint(PointRelative(4, 5, o, 'r'), Vector(3, 4), VectorRelative(o, gen.pt(rng)), 'sharp')
    return {'cps': cps, 'blob': gen.blob(rng), 'rel': [rel, gen.control_point(rng)], 'xforms': [gen.transform(rng), Transform()],
            'field': [field(rng)], 'eight': eight(rng), 'p1p2': [gen.pt(rng, 'a'), gen.pt(rng)]}


def eight(rng):
    """A closed curve that crosses itself"""
    c = [Point(-30 + rng.uniform(-2, 2), -20), Point(30, 20 + rng.uniform(-2, 2)), Point(30, -20), Point(-30, 20)]
    return [ControlPoint(p, Vector(), Vector(), 'sharp') for p in c]


def field(rng):
    vf = VectorField(Mesh(BBox(-200, -200, 200, 200), 5))
    vf.vx[...] = np.array([rng.uniform(-3, 3) for _ in range(25)]).reshape(5, 5)
    vf.vy[...] = np.array([rng.uniform(-3, 3) for _ in range(25)]).reshape(5, 5)
    return vf


def cp(r, e):
    return r.choice(e['cps'] + e['blob'] + e['rel'])


def bez_intersect_any(r, e):
    a, b = r.sample(e['cps'], 2), r.sample(e['blob'], 2)
    return [bezier.bez_intersect_new(a[0], a[1], b[0], b[1], endpoints=r.random() < 0.5),
            bezier.bez_intersect(a[0], a[1], b[0], b[1], as_points=r.random() < 0.5, endpoints=r.random() < 0.5)]


ops('curve',
    cp_copy=lambda r, e: [cp(r, e).copy(), cp(r, e).fixed(), cp(r, e).round(r.randint(0, 3))],
    cp_query=lambda r, e: [cp(r, e).bbox(), cp(r, e).l, cp(r, e).r, str(cp(r, e)), repr(cp(r, e)), cp(r, e) == cp(r, e),
                           cp(r, e).close(cp(r, e))],
    cp_reversed=(lambda r, e: [cp(r, e).reversed(), ControlPoint.reverse_list(r.choice((e['cps'], e['blob'])))], SHARE),
    cp_transform=lambda r, e: [cp(r, e).transform(pick(r, e, 'xforms')), cp(r, e).transform(e['field'][0])],
    split=lambda r, e: [bezier.bez_split(cp(r, e), cp(r, e)), bezier.bez_split(cp(r, e), cp(r, e), r.choice((0, 0.25, 1, r.random())))],
    bez=lambda r, e: [bezier.bez([cp(r, e).c, cp(r, e).r, cp(r, e).l, cp(r, e).c], steps=5, as_xy=r.random() < 0.5)],
    bez_path=lambda r, e: [bezier.bez_path(pick(r, e, 'xforms'), r.choice((e['cps'], e['blob'])), r.random() < 0.5, 4)],
    intersect=bez_intersect_any,
    self_intersect=lambda r, e: [bezier.bez_self_intersect(r.choice((e['eight'], e['eight'], e['blob'])))],
    rounded=lambda r, e: [model.make_rounded_rect_cps(*e['p1p2'], r.choice((0, 3, 500)))],
    ellipse=lambda r, e: [model.make_ellipse_p1p2_cps(*e['p1p2']), model.make_ellipse_cps(e['p1p2'][0], 3),
                          model.make_ellipse_cps(e['p1p2'][1], 3, 4)],
    offset_pt=(lambda r, e: [ElemCurve.offset_pt(cp(r, e).dl, cp(r, e).c, cp(r, e).dr, r.uniform(-3, 3))], SHARE),
    # building an element copies the list, not its members
    new_curve=lambda r, e: new_curve(r, e))


def new_curve(r, e):
    c = ElemCurve('n', PenBrush('red'), r.choice((e['cps'], e['blob'])), closed=r.random() < 0.5)
    c.control_points.append(gen.control_point(r))
    c.control_points.reverse()
    c2 = ElemCurve('n', PenBrush('red'), e['cps'][:3])
    c2.control_points.pop()
    return [len(c.control_points)]


def curve(rng, mon):
    run_history(rng, mon, 'curve', curve_env(rng), 12)


# -- elements and models -----------------------------------------------------------------------------------------------
def model_env(rng):
    g = gen.group(rng, depth=2, hidden=True)
    g.add_pt('spot', gen.pt(rng))
    closed = ElemCurve('blob', gen.penbrush(rng), gen.blob(rng), closed=True, xform=gen.transform(rng))
    leaves = [gen.elem(rng, k) for k in ('curve', 'rect', 'rrect', 'ellipse')] + [closed]
    o = gen.pt(rng)
    leaves.append(ElemCurve('rel', PenBrush('red'), [ControlPoint(PointRelative(4, 5, o, 'r'), Vector(3, 4), Vector(1, 1), 'sharp'),
                                                     ControlPoint(Point(3, 9, 'rel'), gen.vec(rng), gen.vec(rng), 'smooth'),
                                                     gen.control_point(rng)], closed=False))
    gb = GroupBuilder('built', PensByShape.make())
    gb.rect('r', Point(1, 2), Point(8, 9))
    return {'leaves': leaves, 'groups': [g], 'holed': [gen.holed(rng)], 'xforms': [gen.transform(rng), Transform()],
            'pushed': gen.transform(rng).push().scale(2, 2), 'boxes': [BBox(0, 0, 5, 5)], 'gb': [gb.the_group],
            'canvas': Image.new('RGBA', (30, 30), (200, 210, 220, 255)), 'field': field(rng)}


def an(r, e):
    return pick(r, e, 'leaves', 'groups', 'holed', 'gb')


def leaf(r, e):
    return pick(r, e, 'leaves')


def tree(r, e):
    return pick(r, e, 'groups', 'holed')


def mat(r, e):
    return r.choice(e['xforms'] + [e['pushed']])


def curve_of(r, e):
    return r.choice([c for c in e['leaves'] if isinstance(c, ElemCurve)])


def draw_any(r, e, how):
    """Draw into a context of its own; the canvas and the matrix handed in must come back unchanged"""
    m = mat(r, e)
    if r.random() < 0.5:
        m = r.choice((m, None))
    dc = DrawingContext(e['canvas'], m, prod=r.random() < 0.7)
    dc.points_per_curve = 4
    dc.show_cps = r.random() < 0.3
    dc.debug = r.random() < 0.3
    dc.showall = False
    target = an(r, e)
    if how == 'paths':
        return target.paths(dc)
    if how == 'control_paths':
        return target.control_paths(dc)
    if how == 'cps':
        target.draw_control_points(dc)
    elif how == 'shadow':
        dc.shadow_draw(target)
    else:
        target.draw(dc)
        dc.line(1, 2, 3, 4)
        dc.grid()
        dc.polygon([Point(1, 2), Point(4, 5), Point(9, 2)])
    return [dc.image(), dc.image(), dc.scale_pt(1, 2), dc.unscale_pt(3, 4), dc.stroke_width(2)]


def dumped(r, e):
    target = an(r, e)
    context = DumpContext(use_vars=r.random() < 0.5)
    target.dump(context)
    return [context.output(), context.output(just_lines=True)]


def iterate(r, e, transformed):
    """Run an iteration to its end, or abandon it half way"""
    target = tree(r, e)
    m = r.choice((None, mat(r, e)))
    root = r.choice((None, 'root'))
    it = (target.iter_elems_transformed if transformed else target.iter_elems)(root, m)
    stop = r.randint(0, 6)
    out = []
    for i, item in enumerate(it):
        if transformed:
            out.append(item)
        else:
            name, elem, xform = item
            out.append((name, type(elem).__name__, snap.snap(elem), xform.as_6tuple()))
        if i == stop:
            it.close()
            break
    return out


def looked_up(r, e):
    g = e['groups'][0]
    return [g.lookup(r.choice(list(g.elems))), g.lookup_pt('spot'), trying(lambda: g.lookup('no such'), KeyError)]


def pickled(r, e):
    p = support.Pickler([PicklerExtensionGeom])
    items = r.sample(e['leaves'], 2)
    return [p.do_pickle(an(r, e), '    '), p.do_pickle(items, ''), p.do_pickle([('n', items[0], e['xforms'][0])], '    ')]


ops('model',
    text=lambda r, e: [str(an(r, e)), repr(an(r, e))],
    compare=lambda r, e: [an(r, e) == an(r, e), an(r, e) == an(r, e), an(r, e) != an(r, e)],
    copy_leaf=lambda r, e: [leaf(r, e).copy(), curve_of(r, e).fixed()],
    copy_tree=lambda r, e: [tree(r, e).copy()],
    transform=lambda r, e: [an(r, e).transform(mat(r, e)), an(r, e).transform(Transform())],
    transform_field=lambda r, e: [curve_of(r, e).control_points_transformed(e['field'])],
    boxes=lambda r, e: [an(r, e).bbox(), an(r, e).bbox_int(), an(r, e).center()],
    paths=lambda r, e: draw_any(r, e, 'paths'),
    control_paths=lambda r, e: draw_any(r, e, 'control_paths'),
    draw=lambda r, e: draw_any(r, e, 'draw'),
    draw_cps=lambda r, e: draw_any(r, e, 'cps'),
    draw_shadow=lambda r, e: draw_any(r, e, 'shadow'),
    display=lambda r, e: [an(r, e).display(detail=r.randint(0, 1), prefix='>')],
    dump=dumped,
    pickled=pickled,
    iter_raw=lambda r, e: iterate(r, e, False),
    iter_transformed=lambda r, e: iterate(r, e, True),
    iter_leaf=lambda r, e: [(n, x.name) for n, x, m in leaf(r, e).iter_elems('top', mat(r, e))],
    as_curves=lambda r, e: an(r, e).as_curves(),
    digi=(lambda r, e: [leaf(r, e).as_digi_points()], SHARE),
    digi_round=lambda r, e: [x.as_digi_points() for x in e['leaves'] if isinstance(x, (ElemEllipse, ElemRectangleRounded))],
    corners=(lambda r, e: [x.points() for x in e['leaves'] if isinstance(x, ElemP1P2)], SHARE),
    corners_transformed=lambda r, e: [x.points_transformed(mat(r, e)) for x in e['leaves'] if isinstance(x, ElemP1P2)],
    cps_transformed=lambda r, e: [leaf(r, e).control_points_transformed(mat(r, e))],
    residual=lambda r, e: [x.transform_pts(mat(r, e), [x.p1, x.p2, Point(1, 2)]) for x in e['leaves'] if isinstance(x, ElemP1P2)],
    offset=lambda r, e: [e['leaves'][4].offset(r.uniform(-3, 3))],
    self_intersect=lambda r, e: [e['leaves'][4].self_intersect()],
    lookup=(looked_up, SHARE),
    replace_none=lambda r, e: [e['groups'][0].replace(ElemRectangle('no such', PenBrush('red'), Point(1, 2), Point(3, 4)), leaf(r, e))
                               if not any_holed(e['groups'][0]) else 0],
    built=lambda r, e: built(r, e),
    rotated=lambda r, e: rotated(r, e))


def any_holed(g):
    return any(isinstance(x, ElemWithHoles) or (isinstance(x, Group) and any_holed(x)) for x in g.elems.values())


def built(r, e):
    """Building a model from points, control points and styles does not edit them"""
    gb = GroupBuilder('b', PensByShape.make())
    c = curve_of(r, e)
    p1, p2 = [x for x in e['leaves'] if isinstance(x, ElemRectangle)][0].points()[0::2]
    out = [gb.rect('r', p1, p2), gb.rrect('rr', p1, p2, 2), gb.ellipse('e', p1, p2)]
    new = gb.curve('c', c.control_points, closed=True)
    new.control_points.pop()
    out.append(Group('g', PenBrush('red'), elems=None))
    return out


def rotated(r, e):
    gb = GroupBuilder('b', PensByShape.make())
    return [gb.rotate_about_center(leaf(r, e), r.choice((0, 90, 33)), show=r.random() < 0.5)]


def models(rng, mon):
    run_history(rng, mon, 'model', model_env(rng), 14)


# -- styles, fields, images ----------------------------------------------------------------------------------------------
def style_env(rng):
    return {'pens': [Pen('red', 2), Pen(gen.color(rng), -1)], 'brushes': [Brush('blue')],
            'pbs': [gen.penbrush(rng) for _ in range(3)], 'xforms': [gen.transform(rng).push().scale(2, 3)],
            'tables': [PensByShape.make(draft=rng.random() < 0.5)], 'rows': rows(PensByShape.make()),
            'colors': [ColorsByShape.make(draft=rng.random() < 0.5)]}


def rows(table):
    return {k: table[k] for k in table.keys()}


def color_row(table, k):
    c = table[k]
    return repr(c), c.filled


ops('style',
    text=lambda r, e: [[str(x), repr(x)] for k in ('pens', 'brushes', 'pbs', 'tables', 'colors') for x in e[k]],
    query=lambda r, e: [(p.filled, p.stroked, p.filled and p.fill_color, p.stroked and p.stroke_color,
                         p.stroked and p.stroke_width(e['xforms'][0])) for p in e['pbs']],
    compare=lambda r, e: [r.choice(e['pbs']) == r.choice(e['pbs']), r.choice(e['pens']) == e['pens'][0], e['brushes'][0] == Brush('blue')],
    replace=lambda r, e: [repr(r.choice(e['pbs']).replace(brush='pink')), repr(r.choice(e['pbs']).replace(pen='tan')),
                          repr(r.choice([p for p in e['pbs'] if p.stroked] or [PenBrush('red')]).replace(width=9))],
    pen_replace=lambda r, e: [repr(r.choice(e['pens']).replace(brush=Brush('pink'))), repr(r.choice(e['pens']).replace(width=9))],
    build=lambda r, e: [repr(PenBrush(r.choice(e['pens']), e['brushes'][0])), repr(Pen(e['brushes'][0], 4))],
    widths=lambda r, e: [[(k, repr(v)) for k, v in sorted(rows(e['tables'][0].replace_width(r.choice((0, 3, -2)))).items())]
                         if e['tables'][0].replace_width(1) is not None else 0],
    table=lambda r, e: [(k, repr(e['tables'][0][k])) for k in PensByShape.keys()],
    colors=lambda r, e: [(k, color_row(e['colors'][0], k)) for k in ColorsByShape.keys()],
    fresh=lambda r, e: [(k, repr(PensByShape()[k]), color_row(ColorsByShape(), k)) for k in PensByShape.keys()])


def style(rng, mon):
    run_history(rng, mon, 'style', style_env(rng), 10)


def field_env(rng):
    vf = field(rng)
    return {'fields': [vf, field(rng)], 'meshes': [vf.mesh, Mesh(BBox(0, 0, 4, 6), 3)], 'pts': [gen.pt(rng) for _ in range(3)],
            'np': np.array([[1., 2., 5.], [3., 4., 6.], [1., 1., 1.]]), 'xys': [gen.xy(rng) for _ in range(3)],
            'cps': gen.cps(rng), 'box': BBox(-10, -5, 10, 20)}


def vf_(r, e):
    return r.choice(e['fields'])


ops('field',
    derive=lambda r, e: [vf_(r, e).normalized(), vf_(r, e).smoothed(), vf_(r, e).scaled(2), vf_(r, e).scaled(2, -1), vf_(r, e).scaled(1)],
    copy=lambda r, e: [vf_(r, e).copy()],
    compare=lambda r, e: [vf_(r, e) == vf_(r, e), r.choice(e['meshes']) == r.choice(e['meshes'])],
    lookup=lambda r, e: [vf_(r, e).lookup(r.uniform(-50, 50), r.uniform(-50, 50)), vf_(r, e).interp_coords(e['np'].T[:, :2])],
    apply=lambda r, e: [vf_(r, e).transform(*gen.xy(r)), vf_(r, e).transform_pt(r.choice(e['pts'])), vf_(r, e).transform_pts(e['pts']),
                        vf_(r, e).transform_pts(e['xys']), vf_(r, e).transform_np_pts(e['np'])],
    cps=lambda r, e: [c.transform(vf_(r, e)) for c in e['cps']],
    curve=lambda r, e: [ElemCurve('c', PenBrush('red'), e['cps'], closed=False).control_points_transformed(vf_(r, e))],
    new=lambda r, e: [r.choice(e['meshes']).zeros(), Mesh(e['box'], 4).zeros()])


def fields(rng, mon):
    run_history(rng, mon, 'field', field_env(rng), 8)


def image_env(rng):
    ims = []
    for _ in range(2):
        im = Image.new('RGBA', (12, 9), (0, 0, 0, 0))
        for _ in range(12):
            im.putpixel((rng.randrange(12), rng.randrange(9)), tuple(rng.randrange(256) for _ in range(4)))
        ims.append(im)
    g = gen.group(rng, depth=1, size=2)
    return {'images': ims, 'opaque': [im.convert('RGB') for im in ims], 'model': g, 'matrix': gen.transform(rng, 'similar').push(),
            'box': (2, 1, 9, 8)}


def frames(r, e):
    b = Builder(e['images'][0], e['matrix'], e['model'], [], draft=r.random() < 0.5)
    out = [b.build_one(r.random(), 0), b.max_bbox(e['images'])]
    return out + [b.resize_for_gif(e['images'][1], 6, 5)] + list(b.scaled(r.choice((2, 3)), e['box'], e['images']))


def context(r, e):
    dc = DrawingContext(r.choice(e['images'] + e['opaque']), e['matrix'], crop=r.choice((None, (1, 2, 6, 5))))
    if r.random() < 0.3:        # nothing drawn at all
        return [dc.image(), dc.image(crop=False)]
    if r.random() < 0.7:
        dc.line(0, 0, 5, 5)
        dc.polygon([Point(1, 1), Point(4, 7), Point(8, 2)])
    if r.random() < 0.7:
        dc.shadow_draw(e['model'])
    return [dc.image(), dc.image(crop=False), dc.image(crop=(1, 1, 4, 4))]


ops('image',
    shadow=lambda r, e: [drawing.make_shadow(r.choice(e['images']))],
    composed=lambda r, e: [anim.composed(r.choice(e['images'])), anim.single(r.choice(e['images']).getchannel(3)),
                           anim.getalpha(r.choice(e['images']))],
    transparent=lambda r, e: [imagehelp.rgba_to_transparent(r.choice(e['images']))],
    bbox_max=lambda r, e: [drawing.bbox_max((1, 2, 3, 4), e['box'])],
    frames=frames,
    context=context)


def images(rng, mon):
    run_history(rng, mon, 'image', image_env(rng), 6)


KINDS = [(geometry, 1000, 20000), (curve, 600, 8000), (models, 900, 10000), (style, 200, 4000), (fields, 300, 4000), (images, 250, 2500)]
