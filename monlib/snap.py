"""Deep, value-level snapshots of public state, used by purity / aliasing / history monitors."""
import copy

import numpy as np
from PIL import Image
from x7.geom.geom import BasePoint, Point, PointRelative, PointCalc, Vector, BBox, Line
from x7.geom.transform import Transform, Matrix, EmptyStackError
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.model import Elem, ElemCurve, ElemP1P2, ElemRectangleRounded, Group, ElemWithHoles, Path, ControlPath
from x7.geom.drawing import DrawingContext
from x7.geom.vec_field import VectorField, Mesh


def num(v):
    if isinstance(v, (bool, type(None), str)):
        return v
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        return 0.0 if f == 0 else f
    return repr(v)


def nums(seq):
    return tuple(num(v) for v in seq)


def stack_of(t):
    """The maps that successive pops would restore, observed on a deep copy"""
    dup = copy.deepcopy(t)
    out = []
    for _ in range(200):
        try:
            dup.pop()
        except EmptyStackError:
            break
        out.append(nums(dup.as_6tuple()))
    return tuple(out)


def snap(o):
    if isinstance(o, (int, float, str, bool, type(None), np.integer, np.floating)):
        return num(o)
    if isinstance(o, PointRelative):
        return 'PR', num(o.dx), num(o.dy), snap(o.base), o.name
    if isinstance(o, PointCalc):
        return 'PC', snap(o.base), num(o.scale), o.name
    if isinstance(o, BasePoint):
        return 'P', nums(o.xy()), o.name
    if isinstance(o, Vector):
        return 'V', type(o).__name__, nums(o.xy())
    if isinstance(o, BBox):
        return 'B', nums(o.as_tuple())
    if isinstance(o, Line):
        return 'L', snap(o.origin), snap(o.direction)
    if isinstance(o, Transform):
        return 'T', nums(o.as_6tuple()), stack_of(o)
    if isinstance(o, Matrix):
        return 'M', tuple(nums(r) for r in o.as_tuple3x3())
    if isinstance(o, ControlPoint):
        return 'CP', snap(o.c), snap(o.dl), snap(o.dr), o.kind
    if isinstance(o, Brush):
        return 'Br', o.color
    if isinstance(o, Pen):
        return 'Pen', snap(o.brush), num(o.width)
    if isinstance(o, PenBrush):
        return 'PB', snap(o.pen), snap(o.brush)
    if isinstance(o, Elem):
        return snap_elem(o)
    if isinstance(o, Path):
        return 'Path', snap(o.penbrush), o.closed, tuple(nums(p) for p in o.points.tolist())
    if isinstance(o, ControlPath):
        return 'CPath', snap(o.points)
    if isinstance(o, DrawingContext):
        return ('DC', snap(o.matrix), snap(o.background), snap(o.layer), snap(o.shadow), o.shadow_color, o.prod,
                o.show_cps, o.points_per_curve, o.crop, o.debug, o.color)
    if isinstance(o, Image.Image):
        return 'I', o.mode, o.size, hash(o.tobytes())
    if isinstance(o, np.ndarray):
        return 'N', o.shape, tuple(nums(o.flatten().tolist()))
    if isinstance(o, Mesh):
        return 'Mesh', snap(o.bbox), o.steps, snap(o.coord_x), snap(o.coord_y)
    if isinstance(o, VectorField):
        return 'VF', snap(o.mesh), snap(o.vx), snap(o.vy)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v) for v in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((k, snap(v)) for k, v in o.items())
    return repr(o)


def snap_elem(e):
    base = (type(e).__name__, e.name, snap(e.penbrush), e.closed, snap(e.xform))
    if isinstance(e, ElemCurve):
        return base + (snap(e.control_points),)
    if isinstance(e, ElemRectangleRounded):
        return base + (snap(e.p1), snap(e.p2), num(e.radius))
    if isinstance(e, ElemP1P2):
        return base + (snap(e.p1), snap(e.p2))
    if isinstance(e, Group):
        return base + (e.hidden, tuple((k, snap(v)) for k, v in e.elems.items()), snap(e.points))
    if isinstance(e, ElemWithHoles):
        return base + (snap(e.outside), snap(e.inside))
    return base


def ids_of(e):
    """Identity structure of a model: which element objects are where"""
    if isinstance(e, Group):
        return id(e), tuple((k, ids_of(v)) for k, v in e.elems.items())
    if isinstance(e, ElemWithHoles):
        return id(e), ids_of(e.outside), tuple(ids_of(v) for v in e.inside)
    return id(e)


# -- what an element draws -------------------------------------------------------------------------------------------
def dc(matrix=None, ppc=8):
    """A light-weight drawing context (1x1 image)"""
    d = DrawingContext(Image.new('RGBA', (1, 1), 'white'), matrix if matrix is not None else Transform())
    d.points_per_curve = ppc
    return d


def outline(e, matrix=None, ppc=8):
    """[(penbrush, closed, [(x, y)...])...] as drawn"""
    return [(p.penbrush, p.closed, [tuple(q) for q in p.points.tolist()]) for p in e.paths(dc(matrix, ppc))]


def outline_pts(e, matrix=None, ppc=8):
    return [pts for pb, cl, pts in outline(e, matrix, ppc)]


def flat(paths):
    return [v for pts in paths for p in pts for v in p]
