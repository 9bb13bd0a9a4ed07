"""Independent painter's model: which pixels a model certainly paints, certainly leaves alone, or may touch."""
import math

from PIL import Image, ImageColor
from x7.geom.model import ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, Group, ElemWithHoles
from . import ref, gen


def rgba(color):
    if isinstance(color, str):
        color = ImageColor.getcolor(color, 'RGBA')
    return tuple(color) if len(color) == 4 else tuple(color) + (255,)


def over(bg, fg):
    """One pixel composed by Pillow itself"""
    return Image.alpha_composite(Image.new('RGBA', (1, 1), bg), Image.new('RGBA', (1, 1), fg)).getpixel((0, 0))


def leaf_outline(e, steps=24):
    """Outline in the space of the element, from the definition of the shape"""
    if isinstance(e, ElemCurve):
        pts = []
        cps = [gen.cp_tuple(cp) for cp in e.control_points]
        for s in ref.segs_of(cps, e.closed):
            pts.extend(ref.cubic(s, k/steps) for k in range(steps))
        if not e.closed:
            pts.append(cps[-1][0])
        return pts
    (x1, y1), (x2, y2) = e.p1.xy(), e.p2.xy()
    xl, xh, yl, yh = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    if isinstance(e, ElemRectangle):
        return [(xl, yl), (xh, yl), (xh, yh), (xl, yh)]
    if isinstance(e, ElemEllipse):
        n = 4*steps
        return [((xl+xh)/2 + (xh-xl)/2*math.cos(2*math.pi*k/n), (yl+yh)/2 + (yh-yl)/2*math.sin(2*math.pi*k/n))
                for k in range(n)]
    if isinstance(e, ElemRectangleRounded):
        r = max(0, min(e.radius, (xh-xl)/2, (yh-yl)/2))
        pts = []
        for (cx, cy, a) in ((xh-r, yh-r, 0), (xl+r, yh-r, 90), (xl+r, yl+r, 180), (xh-r, yl+r, 270)):
            for k in range(steps//2 + 1):
                t = math.radians(a + 90*k/(steps//2))
                pts.append((cx + r*math.cos(t), cy + r*math.sin(t)))
        return pts
    raise TypeError(e)


def start(e):
    """Where the outline is started to be drawn (only used to keep probes away from cuts)"""
    if isinstance(e, ElemCurve):
        return e.control_points[0].c.xy()
    if isinstance(e, ElemRectangle):
        return e.p1.xy()
    return e.make_control_points()[0].c.xy()


class Op(object):
    """One paint operation: fill of [outline, holes...] or stroke of an outline"""

    def __init__(self, color, loops=None, stroke=None, closed=True, width=1, bridges=(), solid=True):
        self.color, self.loops, self.stroke, self.closed, self.width = color, loops, stroke, closed, width
        self.bridges, self.solid = bridges, solid

    def cover(self, p):
        """True: surely painted, False: surely untouched, None: cannot tell"""
        if self.loops is not None:
            if any(ref.dist_polyline(p, pts, True) < 2.0 for pts in self.loops):
                return None
            if any(ref.dist_seg(p, a, b) < 2.0 for a, b in self.bridges):
                return None
            first = ref.winding(p, self.loops[0])
            if abs(first) > 1:
                return None
            rest = [ref.winding(p, h) for h in self.loops[1:]]
            if first == 0:
                return False if not any(rest) else None
            if any(abs(w) > 1 for w in rest) or sum(abs(w) for w in rest) > 1:
                return None
            return not any(rest)
        d = ref.dist_polyline(p, self.stroke, self.closed)
        if d > self.width/2 + 2.0:
            return False
        if self.solid and self.width >= 5 and d < self.width/2 - 1.75:
            # the seam of a closed line has no joint
            s = self.stroke[0]
            if math.hypot(p[0]-s[0], p[1]-s[1]) > self.width and self.is_interior(p):
                return True
        return None

    def is_interior(self, p):
        """The foot point is on the line and not beyond one of the ends"""
        if self.closed:
            return True
        e = self.stroke[-1]
        return math.hypot(p[0]-e[0], p[1]-e[1]) > self.width


def pen_width(pb, matrix, prod):
    if not prod:
        return 1
    w = pb.pen.width
    if not w > 0:
        m = matrix
        w = -w * (math.hypot(m[0], m[3]) + math.hypot(m[1], m[4])) / 2
    return w


def painters(e, matrix, prod=True, visible=True, top=None, fill_override=None):
    """[Op...] in drawing order for a model under the affine map `matrix`"""
    top = matrix if top is None else top
    if isinstance(e, Group):
        if e.hidden:
            return []
        own = ref.aff_mul(matrix, gen.aff_of(e.xform))
        out = []
        for m in e.elems.values():
            out += painters(m, own, prod, visible, top)
        return out
    own = ref.aff_mul(matrix, gen.aff_of(e.xform))
    pb = e.penbrush
    if isinstance(e, ElemWithHoles):
        loops, closed, starts = [], [], []
        for part in [e.outside] + e.inside:
            a = ref.aff_mul(own, gen.aff_of(part.xform))
            loops.append([ref.aff(a, p) for p in leaf_outline(part)])
            closed.append(part.closed)
            starts.append(ref.aff(a, start(part)))
        bridges = [(starts[0], b) for b in starts[1:]]
    else:
        bridges = []
        loops, closed = [[ref.aff(own, p) for p in leaf_outline(e)]], [e.closed]
    out = []
    if pb.brush:
        # a hole is reached through a thin cut from the end of the outside
        out.append(Op(pb.brush.color, loops=loops, bridges=bridges))
    if pb.pen:
        for pts, c in zip(loops, closed):
            w = pen_width(pb, top, prod)
            out.append(Op(pb.pen.brush.color, stroke=pts, closed=c, width=max(1, round(w)), solid=abs(w) >= 1))
    return out


def expected(ops, p):
    """('bg', None), ('color', c) or None when it cannot be told"""
    result = ('bg', None)
    for op in ops:
        c = op.cover(p)
        if c is None:
            result = None
        elif c:
            result = ('color', op.color)
    return result
