"""C18: rendering paints exactly what the model says."""
import math

from PIL import Image, ImageDraw
from x7.geom.geom import Point, Vector
from x7.geom.transform import Transform
from x7.geom.colors import Pen, Brush, PenBrush, PensByShape, TRANSPARENT
from x7.geom.model import ElemCurve, ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemWithHoles, Group, GroupBuilder
from x7.geom.drawing import DrawingContext
from monlib import gen, ref, pix

TECHNIQUE = 'runtime monitoring: pixel probes of rendered images against an independent painter model, with fault injection'
RULE = ('random models of simple closed shapes, open lines, holed elements, nested and hidden groups under random screen '
        'transforms; probe pixels at a safe distance from every outline (and on wide strokes) are predicted by an independent '
        'painter model and compared; drawing repeated, shadowed, cropped and interrupted by raising elements. '
        'Non-trivial: every image with at least one painted probe; distinct by model and matrix.')
ASSUMPTIONS = ['pixels within two pixels of an outline, a stroke border, a line seam or the cut to a hole are not judged',
               'fills of self-overlapping outlines are judged only where the winding number is at most one',
               'DrawingContext.text needs a macOS font and is not exercised',
               'the colour of a shadow is judged for models whose strokes are black or absent']
REQUIRED = {'corner-handles': 40, 'thin-stroke': 2500, 'grid': 160, 'shadow-falls': 45, 'shadow-nowhere-else': 350, 'fill': 6000, 'background': 12000, 'hole': 400, 'stroke': 230, 'hidden': 240, 'deterministic': 160,
            'caller-image': 1000, 'crop': 400, 'shadow-layer': 300, 'shadow-color': 120, 'raise': 300, 'round-trip': 900,
            'handles': 6000, 'handle-line': 190, 'marker-rim': 850}

SIZE = (110, 100)


def screen(rng):
    """Model space +-70 onto the image"""
    k = rng.random()
    s = rng.uniform(0.5, 1.1)
    if k < 0.35:
        return Transform.canvas_fit(SIZE, s, (SIZE[0]/2, SIZE[1]/2))
    t = Transform().scale(s, s * rng.choice((1, -1)))
    if k < 0.7:
        t.rotate(gen.angle(rng))
    elif k < 0.9:
        t.compose(Transform((rng.uniform(0.7, 1.2), rng.uniform(-0.4, 0.4), 0, rng.uniform(-0.4, 0.4), rng.uniform(0.7, 1.2), 0)))
    return t.translate(SIZE[0]/2 + rng.uniform(-5, 5), SIZE[1]/2 + rng.uniform(-5, 5))


def background(rng):
    k = rng.random()
    if k < 0.3:
        return Image.new('RGBA', SIZE, rng.choice(('white', 'grey', (10, 20, 30, 255))))
    if k < 0.45:
        return Image.new('RGB', SIZE, 'tan')
    if k < 0.6:
        return Image.new('RGBA', SIZE, rng.choice(((0, 0, 0, 0), (200, 100, 0, 128))))
    im = Image.new('RGBA', SIZE)
    im.putdata([(x*2 % 256, y*2 % 256, (x+y) % 256, 255 if k < 0.85 else (x*3) % 256)
                for y in range(SIZE[1]) for x in range(SIZE[0])])
    return im


def style(rng, filled=None, wide=False):
    if filled is None:
        filled = rng.random() < 0.7
    pen = None
    if not filled or rng.random() < 0.5:
        width = rng.choice((8, 12, 15.4, -14)) if wide else rng.choice((0, 1, 2, 3.4, -1, -2))
        pen = Pen(gen.color(rng), width)
    return PenBrush(pen, Brush(gen.color(rng)) if filled else None)


def small_xform(rng):
    k = rng.random()
    if k < 0.4:
        return Transform()
    t = Transform().scale(rng.uniform(0.7, 1.3), rng.uniform(0.7, 1.3) * rng.choice((1, -1)))
    if k < 0.8:
        t.rotate(gen.angle(rng))
    return t.translate(rng.uniform(-15, 15), rng.uniform(-15, 15))


def shape(rng, nm, wide=False, filled=None):
    pb = style(rng, filled, wide)
    k = rng.randrange(6)
    c = (rng.uniform(-25, 25), rng.uniform(-25, 25))
    r = rng.uniform(15, 45)
    p, q = Point(c[0]-r, c[1]-r*rng.uniform(0.4, 1)), Point(c[0]+r, c[1]+r*rng.uniform(0.4, 1))
    if rng.random() < 0.5:
        p, q = Point(q.x, p.y), Point(p.x, q.y)
    if rng.random() < 0.3:
        p, q = q, p
    xf = small_xform(rng)
    if k == 0:
        return ElemCurve(nm, pb, gen.blob(rng, r=r, center=c), closed=True, xform=xf)
    if k == 1:
        return ElemCurve(nm, pb, gen.poly_cps(rng, r=r, center=c, ccw=rng.random() < 0.5), closed=True, xform=xf)
    if k == 2:
        return ElemRectangle(nm, pb, p, q, xform=xf)
    if k == 3:
        return ElemEllipse(nm, pb, p, q, xform=xf)
    if k == 4:
        return ElemRectangleRounded(nm, pb, p, q, rng.choice((0, 5, 12.5, 100)), xform=xf)
    cps = gen.blob(rng, n=rng.randint(3, 7), r=r, center=c)
    cps = cps[:rng.randint(2, len(cps))]
    return ElemCurve(nm, style(rng, False, wide), cps, closed=False, xform=xf)


def own_parts(rng, *args, **kw):
    """Element with holes whose parts have styles of their own (which do not count: all is drawn in the style of the whole)"""
    e = gen.holed(rng, *args, **kw)
    if rng.random() < 0.4:
        for part in [e.outside] + e.inside:
            part.penbrush = PenBrush(Pen(gen.color(rng), rng.choice((1, 5, 12))), Brush(gen.color(rng)) if part.closed else None)
    return e


def model(rng, depth=2, nm='g', wide=False, filled=None):
    g = Group(nm, PenBrush('black'), xform=small_xform(rng) if rng.random() < 0.5 else None, hidden=rng.random() < 0.12)
    for i in range(gen.some(rng, 1, 4, 16)):
        n = 'e%d' % i
        k = rng.random()
        if depth and k < 0.25:
            g.add(n, model(rng, depth-1, n, wide, filled))
        elif k < 0.45:
            g.add(n, own_parts(rng, n, xform=small_xform(rng).scale(0.7, 0.7), pb=style(rng, filled, wide)))
        else:
            g.add(n, shape(rng, n, wide, filled))
    return g


def probes(rng, n=40, size=SIZE):
    return [(rng.randrange(1, size[0]-1), rng.randrange(1, size[1]-1)) for _ in range(n)]


def inside_probes(rng, ops, n=30, size=SIZE):
    """Probes near the middle of shapes, holes and on strokes"""
    out = []
    for op in ops:
        for pts in (op.loops or [op.stroke]):
            cx, cy = sum(p[0] for p in pts)/len(pts), sum(p[1] for p in pts)/len(pts)
            for _ in range(3):
                p = rng.choice(pts)
                t = rng.uniform(0, 0.8)
                out.append((round(cx + t*(p[0]-cx)), round(cy + t*(p[1]-cy))))
    rng.shuffle(out)
    return [p for p in out if 1 <= p[0] < size[0]-1 and 1 <= p[1] < size[1]-1][:n]


def rim_probes(rng, op, n=16, size=SIZE):
    """Probes on a wide stroke, near its border"""
    out = []
    pts = op.stroke
    for _ in range(n):
        i = rng.randrange(len(pts) if op.closed else len(pts)-1)
        (x1, y1), (x2, y2) = pts[i], pts[(i+1) % len(pts)]
        d = math.hypot(x2-x1, y2-y1)
        if d:
            t, off = rng.random(), rng.choice((-1, 1))*rng.uniform(0.5, 1)*(op.width/2 - 2)
            out.append((round(x1 + t*(x2-x1) - off*(y2-y1)/d), round(y1 + t*(y2-y1) + off*(x2-x1)/d)))
    return [p for p in out if 1 <= p[0] < size[0]-1 and 1 <= p[1] < size[1]-1]


def thin(rng, mon, im, bg, ops, what):
    """Thin strokes leave an unbroken trail along their line, in their colour"""
    seen_any = 0
    for k, op in enumerate(ops):
        if not op.stroke or op.width >= 6:
            continue
        good, seen, pts = 0, 0, op.stroke
        want = pix.rgba(op.color)
        for _ in range(12):
            i = rng.randrange(len(pts) if op.closed else len(pts)-1)
            (x1, y1), (x2, y2), t = pts[i], pts[(i+1) % len(pts)], rng.random()
            x, y = x1 + t*(x2-x1), y1 + t*(y2-y1)
            if not (3 <= x < im.size[0]-3 and 3 <= y < im.size[1]-3):
                continue
            if any(o.cover((x, y)) is not False for o in ops[k+1:]):
                continue
            seen += 1
            near = [(int(x)+i, int(y)+j) for i in (-1, 0, 1) for j in (-1, 0, 1)]
            good += any(close(im.getpixel(p), pix.over(pixel(bg, p), want)) for p in near)
        if seen >= 5:
            seen_any += 1
            mon.check(good >= 0.7*seen, 'thin-stroke', good, seen, op.color, op.width, what)
    return seen_any


def close(a, b):
    return all(abs(p-q) <= 2 for p, q in zip(a, b))


def pixel(im, p):
    v = im.getpixel(p)
    return v if len(v) == 4 else v + (255,)


def judge(rng, mon, im, bg, ops, what, n=40):
    """Compare probe pixels with the painter model; returns the number of painted probes"""
    painted = 0
    holed = [op for op in ops if op.loops and len(op.loops) > 1]
    for p in probes(rng, n, im.size) + inside_probes(rng, ops, size=im.size):
        want = pix.expected(ops, p)
        if want is None:
            continue
        got, base = im.getpixel(p), pixel(bg, p)
        if want[0] == 'bg':
            name = 'hole' if any(ref.winding(p, h) for op in holed for h in op.loops[1:]) else 'background'
            mon.check(close(got, base), name, p, got, base, what)
        elif [op for op in ops if op.cover(p)][-1].loops:
            painted += 1
            mon.check(close(got, pix.over(base, pix.rgba(want[1]))), 'fill', p, got, want[1], base, what)
    # Pillow leaves specks unpainted at sharp corners of wide lines: most of the probes of a stroke must be painted
    for k, op in enumerate(ops):
        if op.stroke and op.width >= 6:
            good, seen = 0, 0
            for p in rim_probes(rng, op, size=im.size):
                if op.cover(p) and all(o.cover(p) is False for o in ops[k+1:]):
                    seen += 1
                    good += close(im.getpixel(p), pix.over(pixel(bg, p), pix.rgba(op.color)))
            if seen >= 5:
                painted += good
                mon.check(good >= 0.6*seen, 'stroke', good, seen, op.color, op.width, what)
    return painted + thin(rng, mon, im, bg, ops, what)


def context(rng, bg, matrix, **kw):
    dc = DrawingContext(bg, matrix, **kw)
    dc.debug = rng.random() < 0.3
    dc.points_per_curve = rng.choice((20, 80))
    return dc


def render(rng, mon):
    wide = rng.random() < 0.4
    m = rng.choice((model(rng, wide=wide), shape(rng, 's', wide)))
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    before = (bg.mode, bg.tobytes())
    prod = rng.random() < 0.85
    dc = context(rng, bg, matrix, prod=prod)
    dc.debug = dc.debug and prod
    m.draw(dc)
    im = dc.image()
    mon.check((bg.mode, bg.tobytes()) == before, 'caller-image')
    mon.check(im.size == SIZE and im.mode == 'RGBA', 'caller-image', im.size, im.mode)
    ops = pix.painters(m, a, prod)
    painted = judge(rng, mon, im, bg, ops, m)
    mon.check(gen.aff_of(matrix) == a, 'caller-image', 'matrix')
    if rng.random() < 0.6:
        dc2 = DrawingContext(bg, Transform(a), prod=prod)
        dc2.debug, dc2.points_per_curve = dc.debug, dc.points_per_curve
        m.copy().draw(dc2)
        mon.check(dc2.image().tobytes() == im.tobytes() == dc.image().tobytes(), 'deterministic', m)
    # composing does not paint on anything: drawing some more continues on the same layer
    first = shape(rng, 'later', wide)
    first.draw(dc)
    mon.check((bg.mode, bg.tobytes()) == before, 'caller-image', 'second')
    judge(rng, mon, dc.image(), bg, ops + pix.painters(first, a, prod), 'second', n=15)
    if painted:
        mon.sig(repr(m), a)
        mon.sample(m, a, painted)


def hidden(rng, mon):
    """Hidden groups paint nothing, whatever contains them; showing them again paints"""
    inner = model(rng, 1, 'inner')
    if rng.random() < 0.5:
        inner.hidden = True
    else:
        GroupBuilder('inner', PensByShape(), group=inner).hide()
    outer = Group('outer', PenBrush('black'), xform=small_xform(rng))
    outer.add('a', shape(rng, 'a', filled=True))
    outer.add('h', inner)
    outer.add('z', shape(rng, 'z', filled=True))
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    dc, dc2, dc3 = (context(rng, bg, Transform(a)) for _ in range(3))
    for d in (dc2, dc3):
        d.debug, d.points_per_curve = dc.debug, dc.points_per_curve
    outer.draw(dc)
    twin = outer.copy()
    twin.elems.pop('h')
    twin.draw(dc2)
    mon.check(dc.image().tobytes() == dc2.image().tobytes(), 'hidden', outer)
    inner.draw(dc3)
    mon.check(dc3.layer.getextrema()[3][1] == 0, 'hidden', 'alone')
    inner.hidden = False
    outer.draw(dc3)
    judge(rng, mon, dc3.image(), bg, pix.painters(outer, a), 'unhidden')
    outer.hidden = True
    d = context(rng, bg, Transform(a))
    outer.draw(d)
    mon.check(d.layer.getextrema()[3][1] == 0, 'hidden', 'outer')
    mon.sig('hidden', repr(outer), a)


def holes(rng, mon):
    """Large holes over other shapes"""
    pb = style(rng, rng.random() < 0.9)
    outer = rng.choice((ElemCurve('o', pb, gen.blob(rng, n=rng.randint(4, 7), r=55), closed=True),
                        ElemRectangle('o', pb, Point(-48, 50), Point(50, -46)),
                        ElemEllipse('o', pb, Point(50, 52), Point(-54, -50)),
                        ElemRectangleRounded('o', pb, Point(-48, -46), Point(50, 52), 12)))
    inner = []
    for i, (cx, cy) in enumerate(rng.choice((((0, 0),), ((-19, -2), (19, 3)), ((2, -18), (-3, 18))))):
        r = rng.uniform(11, 15)
        p, q = Point(cx-r, cy-r), Point(cx+r, cy+r)
        inner.append(rng.choice((ElemCurve('i%d' % i, pb, gen.blob(rng, r=r, center=(cx, cy)), closed=True),
                                 ElemCurve('i%d' % i, pb, gen.poly_cps(rng, r=r, center=(cx, cy)), closed=True),
                                 ElemRectangle('i%d' % i, pb, q, p), ElemEllipse('i%d' % i, pb, p, q),
                                 ElemRectangleRounded('i%d' % i, pb, p, q, 4))))
    if rng.random() < 0.4:
        outer.xform = Transform().rotate(gen.angle(rng)).scale(0.9, 0.95)
        for e in inner:
            e.xform = outer.xform.copy()
    whole = ElemWithHoles('w', pb, outer, inner, xform=small_xform(rng))
    g = Group('g', PenBrush('black'))
    under = shape(rng, 'under', filled=True)
    if rng.random() < 0.5:
        g.add('under', under)
    g.add('w', whole if rng.random() < 0.6 else whole.transform(small_xform(rng)))
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    dc = context(rng, bg, matrix)
    g.draw(dc)
    if judge(rng, mon, dc.image(), bg, pix.painters(g, a), g, n=50):
        mon.sig('holes', repr(g), a)


class Bomb(ElemRectangle):
    """Raises while it is drawn"""
    fuse = None

    def paths(self, dc):
        out = super().paths(dc)
        if self.fuse is None or self.fuse <= 0:
            raise ZeroDivisionError('bomb')
        self.fuse -= 1
        return out


def shadow(rng, mon):
    fillonly = rng.random() < 0.6
    m = model(rng, 1) if not fillonly else None
    color = rng.choice(((140, 140, 170, 255), (10, 20, 30, 255), (200, 10, 100, 255)))
    if fillonly:
        m = Group('g', PenBrush('black'), xform=small_xform(rng))
        for i in range(rng.randint(1, 3)):
            s = shape(rng, 'e%d' % i, filled=True)
            s.penbrush = PenBrush(rng.choice((None, Pen('black', 2))), Brush(rng.choice(('red', (1, 2, 3, 255), 'white', TRANSPARENT))))
            if s.closed:
                m.add('e%d' % i, s)
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    if not m.elems:
        return
    before = bg.tobytes()
    dc = context(rng, bg, Transform(a))
    plain = DrawingContext(bg, Transform(a))
    plain.debug, plain.points_per_curve = dc.debug, dc.points_per_curve
    if rng.random() < 0.5:
        s = shape(rng, 'first')
        s.draw(dc)
        s.draw(plain)
    layer = dc.layer.tobytes()
    if rng.random() < 0.5:      # the caller's own drawing object
        dc.draw = ImageDraw.ImageDraw(dc.layer)
    drawer = dc.draw
    default = rng.random() < 0.3
    if default:
        color = (140, 140, 170, 255)
        dc.shadow_draw(m)
    else:
        dc.shadow_draw(m, color)
    cast = [m]
    if fillonly and rng.random() < 0.3:     # a second model throws a shadow of the same colour
        other = shape(rng, 'other', filled=True)
        other.penbrush = PenBrush(None, Brush('red'))
        if other.closed:
            cast.append(other)
            dc.shadow_draw(other, color)
            mon.count('two-shadows')
    mon.check(dc.layer.tobytes() == layer, 'shadow-layer', 'drew on the layer')
    mon.check(dc.draw is drawer, 'shadow-layer', 'drawing object')
    mon.check(gen.aff_of(dc.matrix) == a, 'shadow-layer', 'matrix')
    if fillonly:
        im = dc.image()
        everything = [op for c in cast for op in pix.painters(c, a)]
        for op in everything:
            if op.loops and pix.rgba(op.color) != TRANSPARENT:
                for p in inside_probes(rng, [op], 4):
                    others = [o for o in everything if o is not op]
                    if op.cover(p) and all(o.cover(p) is False for o in others) and plain.layer.getpixel(p)[3] == 0:
                        base = bg.getpixel(p)
                        base = base if len(base) == 4 else base + (255,)
                        mon.check(close(im.getpixel(p), pix.over(base, color)), 'shadow-color', p, im.getpixel(p), color)
                    # the shadow falls to the lower right, nowhere else
                    p = p[0]+4*(k := rng.randint(1, 4)), p[1]+3*k
                    if op.cover((p[0]-4*k, p[1]-3*k)) and p[0] < SIZE[0] and p[1] < SIZE[1] and len(everything) == 1:
                        mon.check(dc.shadow.getpixel(p)[3] > 60, 'shadow-falls', p, k, dc.shadow.getpixel(p))
        for p in probes(rng, 8):
            near = [(p[0]-4*k+i*(2+k), p[1]-3*k+j*(2+k)) for k in range(8) for i in (-1.5, -0.7, 0, 0.7, 1.5) for j in (-1.5, -0.7, 0, 0.7, 1.5)]
            if len(cast) == 1 and all(op.cover(q) is False for q in near for op in everything):
                mon.check(dc.shadow.getpixel(p)[3] == 0, 'shadow-nowhere-else', p, dc.shadow.getpixel(p))
        if len(cast) == 1 and all(pix.rgba(e.penbrush.brush.color) == TRANSPARENT and not e.penbrush.pen for e in m.elems.values()):
            mon.check(dc.shadow.getextrema()[3][1] == 0, 'shadow-color', 'transparent shapes throw no shadow')
    # back to normal
    m.draw(dc)
    m.draw(plain)
    mon.check(dc.layer.tobytes() == plain.layer.tobytes(), 'shadow-layer', 'normal drawing afterwards', m)
    mon.check(bg.tobytes() == before, 'caller-image', 'shadow')
    mon.sig('shadow', repr(m), a)


def raising(rng, mon):
    """A model that raises while its shadow (or itself) is drawn"""
    m = model(rng, 1)
    m.hidden = False
    holder = m
    bomb = Bomb('bomb', PenBrush('red'), Point(0, 0), Point(5, 5), xform=small_xform(rng))
    if rng.random() < 0.5:
        inner = Group('in', PenBrush('black'), xform=small_xform(rng))
        holder.add('in', inner)
        holder = inner
    holder.add('bomb', bomb)
    if rng.random() < 0.7:
        holder.add('after', shape(rng, 'after'))
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    dc = context(rng, bg, Transform(a))
    plain = DrawingContext(bg, Transform(a))
    plain.debug, plain.points_per_curve = dc.debug, dc.points_per_curve
    before, layer = bg.tobytes(), dc.layer.tobytes()
    for _ in range(rng.randint(1, 3)):
        mon.raises(ZeroDivisionError, lambda: dc.shadow_draw(m), 'raise')
        mon.check(dc.layer.tobytes() == layer, 'raise', 'layer touched')
        mon.check(gen.aff_of(dc.matrix) == a, 'raise', 'matrix', dc.matrix)
        mon.check(bg.tobytes() == before, 'caller-image', 'raise')
    if rng.random() < 0.5:
        mon.raises(ZeroDivisionError, lambda: bomb.draw(dc), 'raise')
        mon.check(gen.aff_of(dc.matrix) == a, 'raise', 'matrix after draw', dc.matrix)
    holder.elems.pop('bomb')
    m.draw(dc)
    m.draw(plain)
    mon.check(dc.layer.tobytes() == plain.layer.tobytes(), 'raise', 'normal drawing afterwards')
    if rng.random() < 0.5:      # a good shadow after the failed one
        dc.shadow_draw(shape(rng, 's', filled=True))
        mon.check(dc.layer.tobytes() == plain.layer.tobytes(), 'raise', 'later shadow')
    mon.sig('raise', repr(m), a)


def crops(rng, mon):
    m = model(rng, 1)
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    lo = ref.aff(ref.aff_inv(a), (rng.uniform(5, 45), rng.uniform(5, 40)))
    hi = ref.aff(ref.aff_inv(a), (rng.uniform(60, 105), rng.uniform(55, 95)))
    box = rng.choice(((lo + hi), (hi + lo), (lo[0], hi[1], hi[0], lo[1])))
    dc = context(rng, bg, Transform(a), crop=rng.choice((None, box)))
    if rng.random() < 0.8:
        m.draw(dc)
    else:
        judge(rng, mon, dc.image(crop=False), bg, [], 'nothing drawn', n=10)
    full = dc.image(crop=False)
    mon.check(full.size == SIZE, 'crop', 'full', full.size)
    (x1, y1), (x2, y2) = ref.aff(a, box[:2]), ref.aff(a, box[2:])
    xl, xh, yl, yh = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    got = dc.crop_to_pixels(box)
    mon.check(len(got) == 4 and all(isinstance(v, int) for v in got) and got[0] <= got[2] and got[1] <= got[3], 'crop', got)
    mon.check(all(abs(p-q) <= 1 for p, q in zip(got, (xl, yl, xh, yh))), 'crop', 'pixels', got, (xl, yl, xh, yh))
    for im in [dc.image(crop=box)] + ([dc.image()] if dc.crop else []):
        mon.check(im.tobytes() == full.crop(got).tobytes() and im.size == (got[2]-got[0], got[3]-got[1]), 'crop', box, im.size)
    if not dc.crop:
        mon.check(dc.image().tobytes() == full.tobytes(), 'crop', 'no crop')
    # what was composed belongs to the caller: painting on it shows nowhere else
    kept, back, layer = full.tobytes(), bg.tobytes(), dc.layer.tobytes()
    for im in (dc.image(crop=False), dc.image(crop=box), dc.image()):
        im.paste((9, 99, 199, 255), (0, 0) + im.size)
    mon.check(bg.tobytes() == back and dc.layer.tobytes() == layer, 'caller-image', 'painting on the result')
    mon.check(dc.image(crop=False).tobytes() == kept == full.tobytes(), 'caller-image', 'results are separate')
    # conversions
    for _ in range(3):
        x, y = gen.xy(rng)
        px, py = dc.scale_pt(x, y)
        mon.near((px, py), ref.aff(a, (x, y)), 'round-trip', scale=200)
        mon.near(dc.unscale_pt(px, py), (x, y), 'round-trip', scale=500)
        w = abs(gen.coord(rng))
        mon.near(dc.stroke_width(w), w*(math.hypot(a[0], a[3]) + math.hypot(a[1], a[4]))/2, 'round-trip', scale=100)
    t = screen(rng)
    dc.set_matrix(None)
    mon.check(gen.aff_of(dc.matrix) == a, 'round-trip', 'set_matrix(None)')
    dc.set_matrix(t)
    mon.near(gen.aff_of(dc.matrix), gen.aff_of(t), 'round-trip', 'set_matrix')
    mon.near(dc.unscale_pt(*dc.scale_pt(3, 4)), (3, 4), 'round-trip', 'after set_matrix', scale=500)
    mon.sig('crop', box, a)


def primitives(rng, mon):
    """Lines and polygons drawn in model space through the context"""
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    before = bg.tobytes()
    dc = context(rng, bg, Transform(a))
    ops = []
    for _ in range(rng.randint(1, 4)):
        c = rng.choice(('red', 'blue', (1, 2, 3, 255)))
        if rng.random() < 0.5:
            p, q = gen.xy(rng), gen.xy(rng)
            w = rng.choice((1, 3, 10))
            if rng.random() < 0.2:
                c, w = 'black', 1
                dc.line(*p, *q)
            else:
                dc.line(*p, *q, color=c, width=w)
            ends = [ref.aff(a, p), ref.aff(a, q)]
            ops.append(pix.Op(c, stroke=ends, closed=False, width=w))
        else:
            pts = [cp.c for cp in gen.poly_cps(rng, center=gen.xy(rng))]
            arg = pts if rng.random() < 0.5 else [p.xy() for p in pts]
            fill, outline = rng.choice((c, None)), rng.choice(('black', None))
            if rng.random() < 0.2:
                fill, outline = 'blue', 'black'
                dc.polygon(arg)
            else:
                dc.polygon(arg, fill=fill, outline=outline)
            loop = [ref.aff(a, p.xy()) for p in pts]
            if fill:
                ops.append(pix.Op(fill, loops=[loop]))
            if outline:
                ops.append(pix.Op(outline, stroke=loop, closed=True, width=1))
    painted = judge(rng, mon, dc.image(), bg, ops, 'primitives')
    mon.check(bg.tobytes() == before, 'caller-image', 'primitives')
    dc.grid()
    mon.check(bg.tobytes() == before, 'caller-image', 'grid')
    # red axes, then squares of 100 (black), 50 (green) and 10 (blue) around the origin
    def trail(c, *pts):
        return pix.Op(c, stroke=[ref.aff(a, p) for p in pts], closed=len(pts) > 2, width=1)
    ops += [trail('red', (1000, 0), (-1000, 0)), trail('red', (0, 1000), (0, -1000))]
    ops += [trail(c, (-r, r), (r, r), (r, -r), (-r, -r)) for r, c in ((100, 'black'), (50, 'green'), (10, 'blue'))]
    judge(rng, mon, dc.image(), bg, ops, 'grid', n=20)
    mon.count('grid')
    if painted:
        mon.sig('prim', a, len(ops), painted)


class Marker(object):
    """One piece of the control point display: handle line or marker around a point"""
    width, stroke, closed, bridges, color = 1, None, True, (), 'grey'

    def __init__(self, shape, p, q=None):
        self.shape, self.p, self.q = shape, p, q
        x, y = p
        self.loops = [[(x-5, y-5), (x+5, y-5), (x+5, y+5), (x-5, y+5)] if q is None else [p, q]]

    def cover(self, at):
        if self.shape == 'line':
            return False if ref.dist_seg(at, self.p, self.q) > 2 else None
        dx, dy = abs(at[0]-self.p[0]), abs(at[1]-self.p[1])
        d = max(dx, dy) if self.shape == 'box' else math.hypot(dx, dy)
        return True if d < 3.5 else False if d > 7 else None


def leaf_cps(e):
    """Control points (or None for the handles of plain corners) of a leaf in its own space"""
    if isinstance(e, ElemCurve):
        return [gen.cp_tuple(cp) for cp in e.control_points]
    if isinstance(e, ElemRectangle):
        (x1, y1), (x2, y2) = e.p1.xy(), e.p2.xy()
        return [((x, y), None, None) for x, y in ((x1, y1), (x1, y2), (x2, y2), (x2, y1))]
    if isinstance(e, ElemEllipse):
        (x1, y1), (x2, y2) = e.p1.xy(), e.p2.xy()
        cx, cy, rx, ry = (x1+x2)/2, (y1+y2)/2, abs(x2-x1)/2, abs(y2-y1)/2
        k = 4/3*math.tan(math.pi/8)
        return [((cx+u*rx, cy+v*ry), (-v*k*rx, u*k*ry), (v*k*rx, -u*k*ry)) for u, v in ((1, 0), (0, -1), (-1, 0), (0, 1))]
    return [gen.cp_tuple(cp) for cp in e.make_control_points()]


def markers(e, matrix):
    """Everything the display of control points shows, in drawing order within a control point"""
    if isinstance(e, Group) and e.hidden:
        return []
    own = ref.aff_mul(matrix, gen.aff_of(e.xform))
    if isinstance(e, Group):
        return [m for x in e.elems.values() for m in markers(x, own)]
    if isinstance(e, ElemWithHoles):
        return [m for x in [e.outside] + e.inside for m in markers(x, own)]
    out = []
    for c, dl, dr in leaf_cps(e):
        at = ref.aff(own, c)
        if dl is not None:
            ends = [ref.aff(own, (c[0]+d[0], c[1]+d[1])) for d in (dl, dr)]
            out += [Marker('line', at, q) for q in ends] + [Marker('disk', q) for q in ends]
        out.append(Marker('box', at))
    return out


def handles(rng, mon):
    """Control points shown with the model: markers under the paint, handles as grey lines, everything in place"""
    bare = rng.random() < 0.6
    m = rng.choice((model(rng, 1), shape(rng, 's'), own_parts(rng, xform=small_xform(rng).scale(0.7, 0.7), pb=style(rng))))
    if bare:            # nothing but the markers
        def strip(e):
            if isinstance(e, Group):
                for x in e.elems.values():
                    strip(x)
                return
            e.penbrush = PenBrush(None, None)
            for x in [e.outside] + e.inside if isinstance(e, ElemWithHoles) else []:
                x.penbrush = e.penbrush
            for x in [e.outside] + e.inside if isinstance(e, ElemWithHoles) else [e]:
                if isinstance(x, ElemCurve) and rng.random() < 0.6:
                    for cp in x.control_points:     # corners, and handles of their own length
                        v = Vector(*cp.dr.xy())
                        if not v.length():
                            v = Vector(rng.uniform(5, 40), 0)
                        cp.dr = v.rotate(rng.uniform(-150, 150)) * rng.uniform(0.5, 1.5)
                        cp.kind = 'sharp'
                    mon.count('corner-handles')
        strip(m)
    matrix, bg = screen(rng), background(rng)
    a = gen.aff_of(matrix)
    before = bg.tobytes()
    dc = context(rng, bg, matrix)
    dc.show_cps = True
    m.draw(dc)
    im = dc.image()
    mon.check(bg.tobytes() == before and gen.aff_of(dc.matrix) == a, 'handles', 'left alone')
    shown = markers(m, a)
    paint = [] if bare else pix.painters(m, a)
    ops = shown + paint
    for p in probes(rng, 40) + inside_probes(rng, ops, 40):
        want = pix.expected(ops, p)
        if want is not None:
            base = pixel(bg, p)
            exp = base if want[0] == 'bg' else pix.over(base, pix.rgba(want[1]))
            mon.check(close(im.getpixel(p), exp), 'handles', want, p, im.getpixel(p), m)

    def clear(p, *but):
        return 2 <= p[0] < SIZE[0]-2 and 2 <= p[1] < SIZE[1]-2 and all(o in but or o.cover(p) is False for o in ops)

    red, grey = (255, 0, 0, 255), (128, 128, 128, 255)
    n = 0
    for mk in shown:
        if mk.shape == 'line':
            seen = good = 0
            for _ in range(12):
                t = rng.uniform(0, 1)
                p = (mk.p[0] + t*(mk.q[0]-mk.p[0]), mk.p[1] + t*(mk.q[1]-mk.p[1]))
                if clear(p, mk):
                    seen += 1
                    x, y = round(p[0]), round(p[1])
                    good += any(close(pixel(im, (x+i, y+j)), grey) for i in (-1, 0, 1) for j in (-1, 0, 1))
            if seen:
                mon.check(good == seen, 'handle-line', mk.p, mk.q, good, seen, m)
                n += 1
            continue
        th = rng.choice((0, math.pi/2, math.pi, 3*math.pi/2) if mk.shape == 'box' else (rng.uniform(0, 2*math.pi),))
        ux, uy = math.cos(th), math.sin(th)
        if mk.shape == 'box' and rng.random() < 0.5:    # beside the corner
            ux, uy = ux - 0.8*uy, uy + 0.8*ux
        # the outermost markers of the same point lie below this one
        if all(clear((mk.p[0]+r*ux, mk.p[1]+r*uy), mk, *[o for o in shown if o.shape == 'line' and mk.p in (o.p, o.q)])
               for r in (3.5, 5, 6.5)):
            ring = [(round(mk.p[0]+r*ux/4), round(mk.p[1]+r*uy/4)) for r in range(14, 27)]
            mon.check(any(close(pixel(im, (p[0]+i, p[1]+j)), red) for p in ring for i in (0, 1) for j in (0, 1)), 'marker-rim', mk.shape, mk.p, [pixel(im, p) for p in ring], m)
            n += 1
    if n:
        mon.sig('handles', repr(m), a)


KINDS = [(handles, 500, 6000), (render, 1400, 20000), (holes, 500, 5000), (hidden, 400, 4000), (shadow, 600, 6000), (raising, 400, 4000), (crops, 400, 4000),
         (primitives, 400, 4000)]
