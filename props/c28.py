"""C28: styles resolve to the right pens and fills."""
import math

from x7.geom.colors import (Brush, Pen, PenBrush, PensByShape, Colors, ColorsByShape, TRANSPARENT, NOCOLOR)
from x7.geom.transform import Transform
from x7.geom.geom import Point
from x7.geom.model import GroupBuilder, ElemRectangle
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: resolved styles compared with an independent table of spellings, under histories of replacements'
RULE = ('every spelling of pens and brushes crossed with random colours and widths; random histories of replacements where each '
        'intermediate style is watched for changes; stroke widths under random transforms; by-shape tables made, defaulted, '
        'indexed with known and unknown kinds and rewidthed, also through a builder. Distinct by arguments.')
ASSUMPTIONS = ['a two-element tuple is a (colour, width) pair', 'replacing by None keeps the part']
REQUIRED = {'pen': 4000, 'brush': 4000, 'parts': 4000, 'replace': 3000, 'original': 3000, 'refused': 700, 'width': 2000,
            'table': 6000, 'default': 1500, 'unknown': 1500, 'rewidth': 2400, 'builder': 1000, 'equality': 3000}

KINDS5 = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')


def color(rng):
    return rng.choice((gen.color(rng), (rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255)), '#102030', 'rgb(1,2,3)',
                       TRANSPARENT, 'hsl(0,100%,50%)', (9, 8, 7, 6), 0, 255, 0.5, (0, 0, 0), (0.5, 0.25, 1.0), (0, 0.5, 0, 0)))


def width(rng):
    return rng.choice((0, 0.0, 1, 1.0, 2.5, -1, -2.5, -0.25, rng.uniform(-9, 9), 100))


def pen(rng):
    """A spelling of a pen and the (colour, width) it stands for"""
    k = rng.randrange(6)
    c, w = color(rng), width(rng)
    if k == 0:
        return None, None
    if k == 1:
        return Pen(c, w), (c, w)
    if k == 2:
        return Pen(Brush(c), w), (c, w)
    if k == 3:
        return (c, w), (c, w)
    if k == 4:
        return (Brush(c), w), (c, w)
    return (c, (c, 0.0)) if rng.random() < 0.7 else (Pen(c), (c, 0.0))


def brush(rng):
    k = rng.randrange(3)
    c = color(rng)
    return (None, None) if k == 0 else ((Brush(c), c) if k == 1 else (c, c))


def expect(mon, pb, p, b, what):
    """p: (colour, width) or None; b: colour or None"""
    mon.check(type(pb) is PenBrush, 'parts', what, type(pb))
    if p is None:
        mon.check(pb.pen is None and pb.stroke_color is None, 'pen', what, pb)
        mon.check(pb.stroke_width(Transform()) is None, 'pen', what, 'width')
    else:
        mon.check(isinstance(pb.pen, Pen) and isinstance(pb.pen.brush, Brush), 'pen', what, pb)
        mon.check(pb.pen.brush.color == p[0] and pb.stroke_color == p[0] and pb.pen.width == p[1], 'pen', what, pb, p)
    if b is None:
        mon.check(pb.brush is None and pb.fill_color is None, 'brush', what, pb)
    else:
        mon.check(isinstance(pb.brush, Brush) and pb.brush.color == b and pb.fill_color == b, 'brush', what, pb, b)
    mon.check(pb.filled is (b is not None) and pb.stroked is (p is not None), 'parts', what, pb, pb.filled, pb.stroked)


def spellings(rng, mon):
    ps, p = pen(rng)
    bs, b = brush(rng)
    before = snap.snap((ps, bs))
    pb = PenBrush(ps, bs) if b is not None or rng.random() < 0.5 else PenBrush(ps)
    expect(mon, pb, p, b, 'made')
    mon.check(snap.snap((ps, bs)) == before, 'original')
    # another spelling of the same is equal
    other = PenBrush(None if p is None else Pen(Brush(p[0]), p[1]), None if b is None else Brush(b))
    mon.check(pb == other and not pb != other, 'equality', pb, other)
    p2, b2 = pen(rng)[1], brush(rng)[1]
    third = PenBrush(None if p2 is None else Pen(*p2), b2)
    mon.check((pb == third) == (p == p2 and b == b2), 'equality', pb, third)
    mon.check(pb != 'x' and not pb == None and not pb == pb.pen, 'equality')     # noqa
    if p:
        mon.check(Pen(*p) == pb.pen and Pen(p[0], p[1]+1) != pb.pen and Brush(p[0]) == pb.pen.brush, 'equality')
        mon.check(pb.pen != Brush(p[0]) and Brush(p[0]) != p[0], 'equality', 'types')
    mon.sig('spell', repr(ps), repr(bs))


def replacements(rng, mon):
    """A history of replacements; every earlier style keeps its value"""
    p, b = pen(rng)[1], brush(rng)[1]
    pb = PenBrush(p and Pen(*p), b)
    history = [(pb, p, b)]
    for _ in range(rng.randint(2, 7)):
        pb, p, b = rng.choice(history)
        k = rng.randrange(7)
        if k == 0:
            ps, np = pen(rng)
            new = pb.replace(pen=ps)
            p = np or p
        elif k == 1:
            bs, nb = brush(rng)
            new = pb.replace(brush=bs)
            b = b if nb is None else nb
        elif k == 2:
            w = width(rng)
            new = pb.replace(width=w)
            p = p and (p[0], w)
        elif k == 3:
            w = width(rng)
            bs, nb = brush(rng)
            new = pb.replace(width=w, brush=bs)
            p = p and (p[0], w)
            b = b if nb is None else nb
        elif k == 4:
            new = pb.replace()
        elif k == 5:
            ps, np = pen(rng)
            bs, nb = brush(rng)
            new = pb.replace(pen=ps, brush=bs)
            p = np or p
            b = b if nb is None else nb
        else:
            ps = None
            while ps is None:
                ps, np = pen(rng)
            mon.raises(ValueError, lambda: pb.replace(pen=ps, width=rng.choice((0, 1, -2))), 'refused', ps)
            continue
        mon.count('replace')
        mon.check(new is not pb, 'replace', 'same object')
        expect(mon, new, p, b, 'replace')
        history.append((new, p, b))
    for pb, p, b in history:
        expect(mon, pb, p, b, 'history')
        mon.count('original')
    # single pens
    c, w = color(rng), width(rng)
    one = Pen(c, w)
    c2, w2 = color(rng), width(rng)
    for got, want in ((one.replace(), (c, w)), (one.replace(width=w2), (c, w2)), (one.replace(brush=Brush(c2)), (c2, w)),
                      (one.replace(c2, w2), (c2, w2)), (one.replace(brush=c2), (c2, w))):
        mon.check(got.brush.color == want[0] and got.width == want[1], 'replace', 'pen', got, want)
    mon.check(one.brush.color == c and one.width == w, 'original', 'pen')
    mon.sig('replace', [(p, b) for _, p, b in history])
    mon.sample([repr(h[0]) for h in history[:2]])


def widths(rng, mon):
    w = width(rng)
    t = gen.transform(rng)
    m = gen.aff_of(t)
    before = snap.snap(t)
    pb = PenBrush((color(rng), w), brush(rng)[0])
    got = pb.stroke_width(t)
    if w > 0:
        mon.check(got == w, 'width', w, got)
    else:
        want = -w*(math.hypot(m[0], m[3]) + math.hypot(m[1], m[4]))/2
        mon.near(float(got), want, 'width', w, m, scale=1)
        mon.check(got >= 0, 'width', 'sign', got)
    mon.check(snap.snap(t) == before, 'original', 'transform')
    mon.near(float(pb.stroke_width(Transform())), abs(w), 'width', w)
    # turning and mirroring do not change it
    t2 = t.copy().rotate(gen.angle(rng)).scale(-1, 1).translate(3, 4)
    mon.near(float(pb.stroke_width(t2)), float(got), 'width', 'turned', w, m, scale=1)
    mon.check(PenBrush(None, 'red').stroke_width(t) is None, 'width', 'no pen')
    mon.sig('width', w, m)


def style(rng):
    p, b = pen(rng)[1], brush(rng)[1]
    return PenBrush(p and Pen(*p), b), p, b


def unknown(rng):
    return rng.choice(('', 'Edge', 'keys', 'make', 'edged', 'edge-filled', 'fill', '__class__', None, 3, 'replace_width', 'edge '))


def tables(rng, mon):
    # made by the standard mapping
    draft = rng.random() < 0.4
    kw, want = {}, dict(color='white', fill=TRANSPARENT, transparent=TRANSPARENT, width=0.0)
    for k in ('color', 'fill', 'transparent'):
        if rng.random() < 0.7:
            kw[k] = want[k] = color(rng)
    if rng.random() < 0.7:
        kw['width'] = want['width'] = width(rng)
    if not draft or rng.random() < 0.5:
        table = PensByShape.make(draft, **kw)
    else:
        table = PensByShape.make(**kw)
    c, f, t, w = want['color'], want['fill'], want['transparent'], want['width']
    if draft:
        spec = {k: ((c, 0.0), None) for k in KINDS5}
    else:
        spec = dict(edge=((c, w), None), filled=(None, c), clear=(None, t), edge_filled=((c, w), f), edge_clear=((c, w), t))
    mon.check(sorted(table.keys()) == sorted(KINDS5), 'table', table.keys())

    def verify(tab, sp, what):
        for k in KINDS5:
            expect(mon, tab[k], *sp[k], what + ' ' + k)
            mon.check(tab[k] is getattr(tab, k), 'table', 'attribute')
            mon.count('table')

    verify(table, spec, 'made')
    # partly given
    given = {k: style(rng) for k in KINDS5 if rng.random() < 0.5}
    own = PensByShape(**{k: v[0] for k, v in given.items()})
    ospec = {k: (given[k][1:] if k in given else (('black', 1), None)) for k in KINDS5}
    verify(own, ospec, 'given')
    mon.count('default')
    for k, v in given.items():
        mon.check(own[k] is v[0], 'default', 'given style is used')
    # unknown kinds
    for tab in (table, own, PensByShape(), ColorsByShape()):
        u = unknown(rng)
        mon.raises(ValueError, lambda: tab[u], 'unknown', u)
    # all widths
    nw = width(rng)
    for tab, sp in ((table, spec), (own, ospec)):
        new = tab.replace_width(nw)
        mon.check(type(new) is PensByShape and new is not tab, 'rewidth', new)
        verify(new, {k: (p and (p[0], nw), b) for k, (p, b) in sp.items()}, 'rewidth')
        mon.count('rewidth')
        verify(tab, sp, 'after rewidth')
        # twice
        verify(new.replace_width(w), {k: (p and (p[0], w), b) for k, (p, b) in sp.items()}, 'rewidth twice')
    # colours
    ck = {k: v for k, v in kw.items() if k != 'width'}
    cols = ColorsByShape.make(draft, **ck)
    if draft:
        cspec = {k: (c, None) for k in KINDS5}
    else:
        cspec = dict(edge=(c, None), filled=(None, c), clear=(None, t), edge_filled=(c, f), edge_clear=(c, t))
    for k in KINDS5:
        mon.check((cols[k].outline, cols[k].fill) == cspec[k], 'table', 'colors', k, cols[k])
        mon.check(cols[k].filled is (cspec[k][1] is not None), 'table', 'colors filled', k, cols[k])
    mon.check(sorted(ColorsByShape.keys()) == sorted(KINDS5), 'table', 'colors keys')
    o, fl = rng.choice((c, None, NOCOLOR)), rng.choice((f, None, NOCOLOR))
    x = Colors(o, fl)
    mon.check(x.outline == (None if o == NOCOLOR else o) and x.fill == (None if fl == NOCOLOR else fl), 'table', 'nocolor', x)
    mon.check(x.filled is (x.fill is not None), 'table', 'nocolor')
    mon.sig('table', draft, want, {k: v[1:] for k, v in given.items()}, nw)


def builders(rng, mon):
    """Shapes made through a builder get the style of their kind"""
    given = {k: style(rng) for k in KINDS5 if rng.random() < 0.8}
    table = PensByShape(**{k: v[0] for k, v in given.items()})
    spec = {k: (given[k][1:] if k in given else (('black', 1), None)) for k in KINDS5}
    default = rng.choice(KINDS5)
    b = GroupBuilder('g', table, shape_kind=default) if default != 'edge' or rng.random() < 0.5 else GroupBuilder('g', table)
    for i in range(4):
        kind = rng.choice(KINDS5 + (None, 'own'))
        own, p, br = style(rng)
        arg = own if kind == 'own' else kind
        e = rng.choice((b.rect, b.ellipse))('e%d' % i, Point(0, 0), Point(5, 4), arg)
        want = (p, br) if kind == 'own' else spec[kind or default]
        expect(mon, e.penbrush, *want, 'builder')
        mon.count('builder')
    # a nested builder has the table and kind it is given, by default those of its parent
    kw, kind, sspec = {}, default, spec
    if rng.random() < 0.5:
        kw['shape_kind'] = kind = rng.choice(KINDS5)
    if rng.random() < 0.5:
        inner = {k: style(rng) for k in KINDS5 if rng.random() < 0.8}
        kw['pens_by_shape'] = PensByShape(**{k: v[0] for k, v in inner.items()})
        sspec = {k: (inner[k][1:] if k in inner else (('black', 1), None)) for k in KINDS5}
    sub = b.group('sub', **kw)
    expect(mon, sub.rect('x', Point(0, 0), Point(1, 1)).penbrush, *sspec[kind], 'sub builder')
    other = rng.choice(KINDS5)
    expect(mon, sub.ellipse('y', Point(0, 0), Point(1, 1), other).penbrush, *sspec[other], 'sub builder')
    deeper = sub.group('deeper')
    expect(mon, deeper.rect('x', Point(0, 0), Point(1, 1)).penbrush, *sspec[kind], 'nested twice')
    expect(mon, b.rect('after', Point(0, 0), Point(1, 1)).penbrush, *spec[default], 'builder after nesting')
    u = unknown(rng)
    if u not in (None, ''):
        n = list(b.the_group.elems)
        mon.raises(ValueError, lambda: b.rect('bad', Point(0, 0), Point(1, 1), u), 'unknown', u)
        mon.check(list(b.the_group.elems) == n, 'unknown', 'group changed')
    mon.raises(TypeError, lambda: GroupBuilder('g', rng.choice((None, {}, 'black', PenBrush('red')))), 'refused')
    mon.sig('builder', {k: v[1:] for k, v in given.items()}, default)


KINDS = [(spellings, 12000, 60000), (replacements, 6000, 30000), (widths, 6000, 30000), (tables, 6000, 30000), (builders, 4000, 16000)]
