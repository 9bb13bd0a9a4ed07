"""C31: plots show the data they were given."""
import contextlib
import io
import math

import matplotlib.colors
import matplotlib.pyplot as plt
import numpy as np
from x7.geom.geom import Point, PointRelative, Vector, BBox
from x7.geom.bezier import ControlPoint, bz_plot, bz_plot_curves, bz_curve, bez_intersect_new
from x7.geom.anim import Animation
from x7.geom.plot_utils import plot, plot_show
from x7.geom.vec_field import Mesh, VectorField
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: every plot is recorded when it is shown and its artists are compared with the data handed in'
RULE = ('point lists, sets of curves (few and many, some with many segments), time functions (scalar, x/y, hidden ones) and vector '
        'fields drawn on the real plotting backend; showing is hooked, and the recorded lines, markers, labels, colours and arrows are '
        'compared with the data. Distinct by the data drawn.')
ASSUMPTIONS = ['figures are read back from matplotlib (Agg) and not from pixels', 'the viewer window (Tk) needs a display']
REQUIRED = {'plot': 200, 'plot-style': 200, 'curve-lines': 1500, 'curve-points': 150, 'segment-colors': 25, 'many': 8, 'func': 250, 'func-label': 250,
            'func-span': 250, 'field': 40, 'field-title': 20, 'intersect': 40, 'shown': 300, 'unchanged': 300}


@contextlib.contextmanager
def watched(mon, times=1):
    """Record the figures that are shown; afterwards nothing stays open"""
    shown = []
    real = plt.show

    def show(*args, **kwargs):
        mon.check(not args and not kwargs, 'shown', 'arguments')
        shown.append([plt.figure(n) for n in plt.get_fignums()][-1])

    plt.close('all')
    plt.show = show
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield shown
        mon.check(len(shown) == times, 'shown', len(shown))
    finally:
        plt.show = real


def same_color(a, b):
    return np.allclose(matplotlib.colors.to_rgba(a), matplotlib.colors.to_rgba(b))


def lines(rng, mon):
    """plot(): one line through the points"""
    gen.usual(rng)
    pts = [gen.pt(rng) for _ in range(gen.some(rng, 1, 12, 400, 0.05))]
    if rng.random() < 0.4:
        base = gen.pt(rng)
        pts = [PointRelative(p.x, p.y, base) if rng.random() < 0.5 else p for p in pts]
    want = [p.xy() for p in pts]
    arg = want if rng.random() < 0.4 else pts
    if rng.random() < 0.2:
        arg = [p if rng.random() < 0.5 else w for p, w in zip(pts, want)]
    kw, color = {}, 'black'
    if rng.random() < 0.7:
        color = kw['color'] = rng.choice(('red', 'lightblue', 'green', 'black', 'yellow'))
    if rng.random() < 0.5:
        kw['label'] = rng.choice(('a', 'some label', 'x1'))
    if rng.random() < 0.5:
        kw['linestyle'] = rng.choice((':', '--', '-'))
    if rng.random() < 0.5:
        kw['linewidth'] = rng.choice((0.5, 1, 2, 7.5))
    fig, (ax, other) = plt.subplots(1, 2)
    explicit = rng.random() < 0.5
    if explicit:
        kw['plotter'] = ax
    else:
        plt.sca(ax)
    before = snap.snap(arg)
    try:
        art = plot(arg, **kw)
        mon.check(snap.snap(arg) == before, 'unchanged', 'plot')
        mon.check(art.axes is ax and list(ax.lines) == [art] and not other.lines, 'plot', 'axes', explicit)
        got = list(zip(art.get_xdata(), art.get_ydata()))
        mon.check(len(got) == len(want), 'plot', 'length', len(got), len(want))
        for g, w in zip(got, want):
            mon.near(g, w, 'plot', scale=1)
        mon.check(same_color(art.get_color(), color), 'plot-style', 'color', art.get_color(), color)
        if 'label' in kw:
            mon.check(art.get_label() == kw['label'], 'plot-style', 'label', art.get_label())
        if 'linestyle' in kw:
            mon.check(art.get_linestyle() == kw['linestyle'], 'plot-style', 'linestyle', art.get_linestyle())
        if 'linewidth' in kw:
            mon.check(art.get_linewidth() == kw['linewidth'], 'plot-style', 'linewidth', art.get_linewidth())
    finally:
        plt.close('all')
    with watched(mon):
        plt.subplots()
        plot_show()
    plt.close('all')
    mon.sig('plot', want, sorted(kw))
    mon.sample('plot', want[:5], sorted(kw))


def bezier(nodes, s):
    """A cubic at s, written out"""
    r = 1 - s
    w = (r*r*r, 3*r*r*s, 3*r*s*s, s*s*s)
    return sum(k*x for k, (x, _) in zip(w, nodes)), sum(k*y for k, (_, y) in zip(w, nodes))


def nodes_of(a, b):
    (ax, ay), (_, _), (rx, ry) = gen.cp_tuple(a)
    (bx, by), (lx, ly), _ = gen.cp_tuple(b)
    return (ax, ay), (ax+rx, ay+ry), (bx+lx, by+ly), (bx, by)


def check_line(mon, line, nodes, *detail):
    xs, ys = line.get_xdata(), line.get_ydata()
    n = len(xs)
    mon.check(n >= 20, 'curve-lines', 'samples', n, *detail)
    scale = max(1, max(abs(v) for p in nodes for v in p))
    for i in {0, n-1, n//2, n//3}:
        mon.near((xs[i], ys[i]), bezier(nodes, i/(n-1)), 'curve-lines', i, *detail, scale=scale)


def split(fig):
    """(curve lines, lines of markers)"""
    ax, = fig.axes
    curves = [ln for ln in ax.lines if ln.get_linestyle() != 'None']
    marks = [ln for ln in ax.lines if ln.get_linestyle() == 'None']
    return curves, marks


def check_marks(mon, marks, want):
    got = [p for ln in marks for p in zip(ln.get_xdata(), ln.get_ydata())]
    mon.check(len(got) == len(want), 'curve-points', len(got), len(want))
    for g, w in zip(got, want):
        mon.near(g, w, 'curve-points', scale=1)
    for ln in marks:
        mon.check(ln.get_marker() not in (None, 'None', ''), 'curve-points', 'marker')


def segments(rng, mon):
    """bz_plot(): the given curves in their colours, and the points"""
    gen.usual(rng)
    want, curves = [], []
    for _ in range(gen.some(rng, 1, 6, 90, 0.04)):
        a, b = gen.cps(rng, 2)
        color = rng.choice((None, 'red', 'blue', 'green'))
        want.append((nodes_of(a, b), color or 'black'))
        c = bz_curve(a, b)
        curves.append((c, color) if color else c)
    pts = [gen.pt(rng) for _ in range(rng.choice((0, 1, 2, 7)))]
    with watched(mon) as shown:
        bz_plot(curves, pts if rng.random() < 0.5 else [p.xy() for p in pts])
    drawn, marks = split(shown[0])
    mon.check(len(drawn) == len(want), 'curve-lines', 'number', len(drawn), len(want))
    for line, (nodes, color) in zip(drawn, want):
        check_line(mon, line, nodes)
        mon.check(same_color(line.get_color(), color), 'curve-lines', 'color', line.get_color(), color)
    check_marks(mon, marks, [p.xy() for p in pts])
    plt.close('all')
    mon.sig('bz_plot', want)


def outlines(rng, mon):
    """bz_plot_curves(): every segment of every curve, and every point"""
    gen.usual(rng)
    k = rng.random()
    if k < 0.06:
        curves = [gen.cps(rng, rng.randint(1, 2)) for _ in range(rng.randint(61, 75))]
    elif k < 0.12:
        curves = [gen.cps(rng, rng.randint(61, 80)) for _ in range(rng.randint(1, 2))]
    else:
        curves = [gen.cps(rng, rng.randint(1, 5)) for _ in range(rng.randint(1, 5))]
    by_segment = rng.random() < 0.5
    before = snap.snap(curves)
    with watched(mon) as shown:
        if by_segment:
            bz_plot_curves(curves, color_by_segment=True)
        else:
            bz_plot_curves(curves)
    mon.check(snap.snap(curves) == before, 'unchanged', 'outlines')
    drawn, marks = split(shown[0])
    want = [[nodes_of(a, b) for a, b in zip(cps, cps[1:] + cps[:1])] for cps in curves]
    mon.check(len(drawn) == sum(map(len, want)), 'curve-lines', 'number', len(drawn), sum(map(len, want)))
    it = iter(drawn)
    colors = []
    for segs in want:
        mine = [next(it) for _ in segs]
        for line, nodes in zip(mine, segs):
            check_line(mon, line, nodes, by_segment)
        if by_segment:
            for a, b in zip(mine, mine[1:]):
                mon.check(not same_color(a.get_color(), b.get_color()), 'segment-colors', a.get_color())
        else:
            for ln in mine:
                mon.check(same_color(ln.get_color(), mine[0].get_color()), 'segment-colors', 'one', ln.get_color())
            colors.append(mine[0].get_color())
    for a, b in zip(colors, colors[1:]):
        mon.check(not same_color(a, b), 'segment-colors', 'curves', a)
    check_marks(mon, marks, [gen.cp_tuple(cp)[0] for cps in curves for cp in cps])
    if len(drawn) > 60:
        mon.count('many')
    plt.close('all')
    mon.sig('outlines', by_segment, want)


def crossing(rng, mon):
    """Plotting an intersection changes nothing about it and shows both curves and the points found"""
    gen.usual(rng)
    a, b, c, d = gen.cps(rng, 4)
    plain = bez_intersect_new(a, b, c, d)
    with watched(mon) as shown:
        again = bez_intersect_new(a, b, c, d, do_plot=True)
    mon.check(snap.snap(plain) == snap.snap(again), 'intersect', plain, again)
    drawn, marks = split(shown[0])
    mon.check(len(drawn) == 2, 'intersect', 'lines', len(drawn))
    for line, nodes in zip(drawn, (nodes_of(a, b), nodes_of(c, d))):
        check_line(mon, line, nodes)
    check_marks(mon, marks, [p.xy() for p, _, _ in plain])
    plt.close('all')
    mon.sig('cross', nodes_of(a, b), nodes_of(c, d))


def time_function(rng):
    """(function for the real code, the same function for the monitor)"""
    k = rng.randrange(5)
    a, b, c = rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(0, 1)
    if k == 0:
        return Animation.sin(a, 30*b, scale=b, shift=c), lambda t: math.sin(t*math.tau*a + math.radians(30*b))*b + c
    if k == 1:
        return (lambda t: a*t + b), (lambda t: a*t + b)
    if k == 2:
        return Animation.hide_if(lambda t: t, c), lambda t: None if t < c else t
    if k == 3:
        return Animation.xy(lambda t: a*t, lambda t: b - t), lambda t: (a*t, b - t)
    return Animation.sin_cos(a, scale=b), lambda t: (math.sin(t*math.tau*a)*b, math.cos(t*math.tau*a)*b)


def functions(rng, mon):
    """Animation.plot(): the values of every function over the span, labelled"""
    gen.usual(rng)
    funcs, want = [], []
    for i in range(rng.randint(1, 4)):
        f, g = time_function(rng)
        tag = 'f%d' % i if rng.random() < 0.7 else rng.choice('abc') + str(i)
        funcs.append((tag, f))
        if isinstance(g(0.0), tuple):
            want.append((tag + '.x', lambda t, g=g: g(t)[0]))
            want.append((tag + '.y', lambda t, g=g: g(t)[1]))
        else:
            want.append((tag, g))
    start, end = 0.0, 1.0
    kw = {}
    if rng.random() < 0.5:
        start = kw['start'] = rng.choice((0.0, 0.25, -1.0, rng.uniform(-2, 1)))
    if rng.random() < 0.5:
        end = kw['end'] = start + rng.choice((1.0, 2.0, rng.uniform(0.1, 3)))
    if end <= start:
        end = kw['end'] = start + 1
    with watched(mon) as shown:
        Animation.plot(funcs, **kw)
    ax, = shown[0].axes
    mon.check(len(ax.lines) == len(want), 'func', 'number', len(ax.lines), len(want))
    for line, (label, g) in zip(ax.lines, want):
        mon.check(line.get_label() == label, 'func-label', line.get_label(), label)
        xs = [float(x) for x in line.get_xdata()]
        ys = [math.nan if y is None else float(y) for y in line.get_ydata()]
        mon.near(xs[0], start, 'func-span', 'start', scale=1)
        mon.check(end - 1e-9 <= xs[-1] <= end + 0.0201, 'func-span', 'end', xs[-1], end)
        mon.check(max(b - a for a, b in zip(xs, xs[1:])) < 0.0201, 'func-span', 'gaps')
        for i in range(0, len(xs), 7):
            w = g(xs[i])
            if w is None:
                mon.check(math.isnan(ys[i]), 'func', 'hidden', label, xs[i], ys[i])
            else:
                mon.near(ys[i], w, 'func', label, xs[i], scale=5)
    legend = ax.get_legend()
    mon.check(legend is not None and [t.get_text() for t in legend.get_texts()] == [w[0] for w in want], 'func-label', 'legend')
    plt.close('all')
    mon.sig('func', start, end, [w[0] for w in want], [w[1](0.37) for w in want])


def fields(rng, mon):
    """VectorField.plot(): every stored arrow at its node, on the axes asked for, with the title"""
    gen.usual(rng)
    n = rng.randint(2, 6)
    x, y = rng.uniform(-50, 50), rng.uniform(-50, 50)
    w, h = rng.uniform(1, 40), rng.uniform(1, 40)
    vals = {(i, j): (rng.uniform(-3, 3), rng.uniform(-3, 3)) for i in range(n) for j in range(n)}
    vf = VectorField(Mesh(BBox(x, y, x+w, y+h), n), np.array([[vals[i, j][0] for j in range(n)] for i in range(n)]),
                     np.array([[vals[i, j][1] for j in range(n)] for i in range(n)]))
    title = rng.choice((None, 'a title', 'field %d' % n))
    own = rng.random() < 0.5
    with watched(mon) as shown:
        before = snap.snap(vf.vx), snap.snap(vf.vy)
        if own:
            fig, (ax, other) = plt.subplots(1, 2)
            if rng.random() < 0.5:
                plt.sca(ax)
            vf.plot(title, ax) if rng.random() < 0.5 else vf.plot(ax=ax, title=title)
        elif title:
            vf.plot(title)
        else:
            vf.plot()
        mon.check((snap.snap(vf.vx), snap.snap(vf.vy)) == before, 'unchanged', 'field')
    if own:
        mon.check(not other.collections and not other.get_title(), 'field', 'other axes', other.get_title())
    else:
        ax, = shown[0].axes
    q, = ax.collections
    seen = set()
    for px, py, u, v in zip(np.ravel(q.X), np.ravel(q.Y), np.ravel(q.U), np.ravel(q.V)):
        i, j = round((px-x)/w*(n-1)), round((py-y)/h*(n-1))
        mon.near((px, py), (x + w*i/(n-1), y + h*j/(n-1)), 'field', 'node', scale=100)
        mon.near((u, v), vals[i, j], 'field', 'arrow', i, j, scale=3)
        seen.add((i, j))
    mon.check(len(seen) == n*n, 'field', 'nodes', len(seen))
    mon.check(ax.get_title() == (title or ''), 'field-title', ax.get_title(), title)
    plt.close('all')
    mon.sig('field', n, x, y, w, h, sorted(vals.items()))


KINDS = [(lines, 800, 8000), (segments, 500, 5000), (outlines, 500, 5000), (crossing, 200, 2000),
         (functions, 500, 5000), (fields, 300, 3000)]
