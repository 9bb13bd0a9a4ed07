"""C30: the geometry-aware matchers and recorders of x7.geom.testing accept equal data and reject different data."""
import importlib.util
import io
import os
import sys
import tempfile
from contextlib import redirect_stderr, redirect_stdout

from PIL import Image
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.geom import BBox, Point, PointCalc, PointRelative, Vector, VectorRelative
from x7.geom.testing import TestCaseGeomExtended
from x7.geom.transform import Transform
from monlib import gen, snap

TECHNIQUE = 'runtime monitoring: reference tolerance oracle over the verdicts and messages of the real matchers'
RULE = ('pairs of points, vectors, control points and nested lists of them whose coordinates differ by amounts chosen below and above '
        'the requested places, delta or default tolerance; the verdict must follow the tolerance rule coordinate by coordinate and the '
        'message must name the coordinate; data recorded by one test run must match unchanged data and refuse changed data in the '
        'next. Non-trivial: the two sides are not identical; distinct by classes, tolerance and which coordinates differ.')
ASSUMPTIONS = ['differences within 10% of the tolerance itself are not judged', 'comparing data of different classes is never a match']
REQUIRED = {'xy-verdict': 3000, 'xy-names': 1500, 'cp-verdict': 1500, 'list-verdict': 1000, 'types-differ': 700, 'assert-agrees': 3000,
            'close-verdict': 1500, 'both-refused': 300, 'recorded-accepts': 60, 'recorded-rejects': 60, 'plot': 10}


class Case(TestCaseGeomExtended):
    def runTest(self):
        pass


CASE = Case()
FACTORS = (0, 0, 0, 0.2, 0.4, 0.45, 0.55, 0.7, 1.5, 10, 100, 1e4, 1e7)


def tolerance(rng):
    """(keyword arguments, largest accepted difference)"""
    k = rng.random()
    if k < 0.3:
        return {}, 0.5e-7
    if k < 0.65:
        places = rng.randint(0, 9)
        return {'places': places}, 0.5 * 10.0 ** -places
    delta = 10.0 ** rng.uniform(-8, 1)
    return {'delta': delta}, delta


def shift(rng, tol):
    """A difference clearly below or clearly above the tolerance: (amount, accepted)"""
    f = rng.choice(FACTORS)
    if f == 0:
        return 0.0, True
    s = rng.choice((-1, 1))
    # FACTORS are relative to twice the tolerance so that 0.45/0.55 hug it
    return s * f * 2 * tol, f < 0.5


def within(a, b, tol):
    """True / False / None (too close to the tolerance to judge, rounding included)"""
    d = abs(a - b)
    if d == 0 or d < 0.95 * tol - 4e-14:
        return True
    return False if d > 1.05 * tol + 4e-14 else None


def build(kind, x, y, rng):
    if kind == 'P':
        return Point(x, y)
    if kind == 'N':
        return Point(x, y, rng.choice(('a', 'b', 'c')))
    if kind == 'R':
        return PointRelative(x, y, Point(0, 0))
    if kind == 'C':
        return PointCalc(PointRelative(x, y, Point(0, 0)), 1)
    if kind == 'V':
        return Vector(x, y)
    if kind == 'W':
        return VectorRelative(Point(0, 0), Point(x, y))
    raise KeyError(kind)


def verdict(mon, first, second, kw):
    """almostEqual's answer, which assertAlmostEqual must share"""
    got = CASE.almostEqual(first, second, **kw)
    try:
        CASE.assertAlmostEqual(first, second, **kw)
        agrees = got is True
    except Case.failureException:
        agrees = got is not True and isinstance(got, str) and len(got) > 0
    mon.check(agrees, 'assert-agrees', first, second, kw, got)
    return got


def xy_pairs(rng, mon):
    for _ in range(6):
        kw, tol = tolerance(rng)
        kind = rng.choice('PPNRCVVW')
        x, y = rng.uniform(-50, 50), rng.choice((0.0, rng.uniform(-50, 50), 7))
        dx, _ = shift(rng, tol)
        dy, _ = shift(rng, tol)
        if rng.random() < 0.2:      # mirrored or swapped coordinates
            dx, dy = rng.choice(((-2*x, 0.0), (0.0, -2*y), (-2*x, -2*y), (y - x, x - y)))
        a, b = build(kind, x, y, rng), build(kind, x + dx, y + dy, rng)
        ox, oy = within(a.x, b.x, tol), within(a.y, b.y, tol)
        if ox is None or oy is None:
            continue
        for first, second in ((a, b), (b, a)):
            got = verdict(mon, first, second, kw)
            mon.check((got is True) == (ox and oy), 'xy-verdict', kind, first, second, kw, got)
            if got is not True:
                mon.check(('x: ' in got) == (not ox) and ('y: ' in got) == (not oy), 'xy-names', first, second, kw, got)
                who, v, w = ('x', first.x, second.x) if not ox else ('y', first.y, second.y)
                mon.check(repr(v) in got and repr(w) in got, 'xy-names', 'values', who, v, w, got)
        mon.check(CASE.almostEqual(a, a, **kw) is True, 'xy-verdict', 'self', a)
        mon.sig('xy', kind, tuple(kw), round(kw.get('places', 0)), ox, oy)
    kw = {'places': rng.randint(0, 9), 'delta': rng.uniform(1e-6, 1)}
    mon.raises(TypeError, lambda: CASE.almostEqual(Point(0, 1), Point(0, 1.5), **kw), 'both-refused')


def make_cp(rng):
    return gen.control_point(rng)


def alter(rng, cp, tol):
    """A copy of cp with some parts shifted, and whether it stays within the tolerance"""
    new = cp.copy()
    which = rng.randrange(8)
    what = []
    for name in rng.sample(('c', 'dl', 'dr'), rng.randint(1, 3)):
        part = getattr(cp, name)
        dx, _ = shift(rng, tol)
        dy, _ = shift(rng, tol)
        if rng.random() < 0.4:
            dx, dy = rng.choice(((0.0, dy), (dx, 0.0)))
        setattr(new, name, type(part)(part.x + dx, part.y + dy))
        what.append(name)
    if which == 0:
        new.kind = rng.choice([k for k in gen.KINDS if k != cp.kind])
        what.append('kind')
    return new, tuple(sorted(what))


def same_cp(a, b, tol):
    if a.kind != b.kind:
        return False
    flags = [within(getattr(a, n).x, getattr(b, n).x, tol) for n in ('c', 'dl', 'dr')]
    flags += [within(getattr(a, n).y, getattr(b, n).y, tol) for n in ('c', 'dl', 'dr')]
    if False in flags:
        return False
    return None if None in flags else True


def cp_pairs(rng, mon):
    for _ in range(4):
        kw, tol = tolerance(rng)
        a = make_cp(rng)
        b, what = alter(rng, a, tol)
        want = same_cp(a, b, tol)
        if want is None:
            continue
        for first, second in ((a, b), (b, a)):
            got = verdict(mon, first, second, kw)
            mon.check((got is True) == want, 'cp-verdict', first, second, kw, got)
        mon.check(CASE.almostEqual(a, a.copy(), **kw) is True, 'cp-verdict', 'copy', a)
        mon.sig('cp', what, tuple(kw), want)


def lists(rng, mon):
    kw, tol = tolerance(rng)
    items, other = [], []
    want = True
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < 0.4:
            kind = rng.choice('PRCVWN')
            x, y = gen.xy(rng)
            dx, _ = shift(rng, tol)
            a, b = build(kind, x, y, rng), build(kind, x + dx, y, rng)
            w = within(a.x, b.x, tol)
        elif k < 0.7:
            a = make_cp(rng)
            b, _ = alter(rng, a, tol) if rng.random() < 0.5 else (a.copy(), ())
            w = same_cp(a, b, tol)
        elif k < 0.85:
            a = gen.coord(rng)
            b = a + shift(rng, tol)[0]
            w = within(a, b, tol)
        else:
            p, q = gen.pt(rng), gen.pt(rng)
            dx, _ = shift(rng, tol)
            a, b = (p, [q]), (p.copy(), [Point(q.x + dx, q.y)])
            w = within(a[1][0].x, b[1][0].x, tol)
        if w is None:
            return
        items.append(a)
        other.append(b)
        want = want and w
    make = rng.choice((list, tuple))
    got = verdict(mon, make(items), make(other), kw)
    mon.check((got is True) == want, 'list-verdict', items, other, kw, got)
    # length and container differences never match
    got = verdict(mon, make(items), make(items + [gen.pt(rng)]), kw)
    mon.check(got is not True, 'list-verdict', 'length', got)
    got = verdict(mon, list(items), tuple(items), kw)
    mon.check(got is not True, 'list-verdict', 'container', got)
    mon.sig('list', make.__name__, tuple(kw), tuple(type(v).__name__ for v in items), want)


def types(rng, mon):
    kw, tol = tolerance(rng)
    x, y = gen.xy(rng)
    for k1, k2 in (('P', 'V'), ('P', 'R'), ('R', 'C'), ('V', 'W'), ('V', 'P'), ('C', 'V')):
        a, b = build(k1, x, y, rng), build(k2, x, y, rng)
        got = verdict(mon, a, b, kw)
        mon.check(got is not True, 'types-differ', a, b, got)
        got = verdict(mon, [a], [b], kw)
        mon.check(got is not True, 'types-differ', 'in list', a, b, got)
        mon.sig('types', k1, k2, tuple(kw))
    got = verdict(mon, gen.pt(rng), make_cp(rng), kw)
    mon.check(got is not True, 'types-differ', 'point and control point', got)
    got = verdict(mon, gen.pt(rng), gen.xy(rng), kw)
    mon.check(got is not True, 'types-differ', 'point and tuple', got)


def closeness(rng, mon):
    """matchExact: only equal data match; otherwise the explanation says Close or Diff"""
    def status(text):
        lines = [ln for ln in text.splitlines()[1:-1]]
        mon.check(bool(lines) and all(('Close' in ln) or ('Diff' in ln) or ('Match' in ln) for ln in lines), 'close-verdict', text)
        return lines

    def moved(v, size):
        if isinstance(v, ControlPoint):
            new = v.copy()
            n = rng.choice(('c', 'dl', 'dr'))
            setattr(new, n, moved(getattr(v, n), size))
            return new
        return type(v)(v.x + rng.choice((-1, 1)) * size, v.y)
    for _ in range(3):
        a = rng.choice((gen.pt, gen.vec, make_cp))(rng)
        mon.check(CASE.matchExact(a, a.copy()) is True, 'close-verdict', 'equal', a)
        far = 10.0 ** rng.uniform(-9, 3)
        near = 10.0 ** rng.uniform(-13, -12)
        b = moved(a, far)
        text = CASE.matchExact(a, b)
        mon.check(isinstance(text, str) and 'Diff' in status(text)[0] and 'Close' not in text, 'close-verdict', 'far', a, b, text)
        b = moved(a, near)
        if b != a:
            text = CASE.matchExact(a, b)
            mon.check(isinstance(text, str) and 'Close' in status(text)[0] and 'Diff' not in text, 'close-verdict', 'near', a, b, text)
        if isinstance(a, ControlPoint):
            b = a.copy()
            b.kind = rng.choice([k for k in gen.KINDS if k != a.kind])
            text = CASE.matchExact(a, b)
            mon.check(isinstance(text, str) and 'Diff' in status(text)[0], 'close-verdict', 'kind', a, b, text)
            far_c = Point(a.c.x + far, a.c.y)        # the centre moves, the handle ends stay
            d = a.c - far_c
            text = CASE.matchExact(a, ControlPoint(far_c, a.dl + d, a.dr + d, a.kind))
            mon.check(isinstance(text, str) and 'Diff' in status(text)[0], 'close-verdict', 'centre', a, far, text)
            text = CASE.matchExact([a], [b])
            mon.check(isinstance(text, str) and 'Diff' in status(text)[0], 'close-verdict', 'kind in list', a, b, text)
        # lists: one line per item
        items = [rng.choice((gen.pt, gen.vec, make_cp))(rng) for _ in range(gen.some(rng, 1, 5, 20))]
        mon.check(CASE.matchExact(items, [v.copy() for v in items]) is True, 'close-verdict', 'equal list')
        i = rng.randrange(len(items))
        other = [v.copy() for v in items]
        other[i] = moved(items[i], far)
        text = CASE.matchExact(items, other)
        lines = status(text) if isinstance(text, str) else []
        mon.check(len(lines) == len(items) and all(('Diff' in ln) == (j == i) for j, ln in enumerate(lines)),
                  'close-verdict', 'list', i, text)
        mon.sig('close', type(a).__name__, len(items), i)


# -- recorded data -------------------------------------------------------------------------------------------------------
def geometry(rng):
    """Something the geometry pickler stores"""
    k = rng.randrange(10)
    if k == 9:
        # what iter_elems yields
        return [(gen.name(rng), gen.elem(rng), gen.transform(rng)) for _ in range(gen.some(rng, 1, 3, 12, 0.1))]
    if k == 0:
        return [gen.pt(rng) for _ in range(gen.some(rng, 1, 4, 20, 0.1))]
    if k == 1:
        return gen.vec(rng)
    if k == 2:
        return gen.cps(rng)
    if k == 3:
        return BBox(*gen.xy(rng), *gen.xy(rng))
    if k == 4:
        return {'pen': Pen(rng.choice(gen.NAMES), rng.randint(0, 5)), 'brush': Brush(rng.choice(gen.NAMES)),
                'pb': gen.penbrush(rng)}
    if k == 5:
        return Transform(gen.mat6(rng))
    if k == 6:
        return gen.elem(rng)
    if k == 7:
        return [gen.elem(rng) for _ in range(gen.some(rng, 1, 3, 12, 0.1))]
    im = Image.new('RGBA', (rng.randint(1, 9), rng.randint(1, 9)), 'white')
    im.putpixel((0, 0), (rng.randrange(256), 3, 5, 255))
    return im


def changed(rng, data):
    """A clearly different value of the same structure"""
    if isinstance(data, list):
        i = rng.randrange(len(data))
        return [changed(rng, v) if j == i else v for j, v in enumerate(data)]
    if isinstance(data, tuple):
        i = rng.randrange(len(data))
        return tuple(changed(rng, v) if j == i else v for j, v in enumerate(data))
    if isinstance(data, str):
        return data + '!'
    if isinstance(data, dict):
        new = dict(data)
        k = rng.choice(sorted(k for k in data if k != 'pb'))
        new[k] = changed(rng, data[k])
        return new
    if isinstance(data, (Point, Vector)):
        return type(data)(data.x + rng.choice((1, -0.5, 1e-6)), data.y)
    if isinstance(data, ControlPoint):
        new = data.copy()
        if rng.random() < 0.4:
            new.kind = rng.choice([k for k in gen.KINDS if k != data.kind])
        else:
            n = rng.choice(('c', 'dl', 'dr'))
            setattr(new, n, changed(rng, getattr(data, n)))
        return new
    if isinstance(data, BBox):
        return BBox(data.xl - 1, data.yl, data.xh, data.yh)
    if isinstance(data, Pen):
        return Pen(data.brush, data.width + 1)
    if isinstance(data, Brush):
        return Brush('violet')
    if isinstance(data, Transform):
        return data.copy().translate(1, 0)
    if isinstance(data, Image.Image):
        new = data.copy()
        r, g, b, a = new.getpixel((0, 0))
        new.putpixel((0, 0), (r, g + 1, b, a))
        return new
    new = data.copy()
    j = rng.randrange(3)
    if j == 0:
        new.name = new.name + '!'
    elif j == 1:
        new.penbrush = PenBrush(Pen('violet', 7), 'violet')
    elif hasattr(new, 'control_points'):
        new.control_points[0].c.setxy(new.control_points[0].c.x + 1, 0.25)
    else:
        new.p1.setxy(new.p1.x + 1, new.p1.y)
    return new


MOD = '''
from x7.geom.testing import TestCaseGeomExtended


class Recorded(TestCaseGeomExtended):
    SAVE_MATCH = True

    def runTest(self):
        pass
'''
SERIAL = [0]


def load(path):
    SERIAL[0] += 1
    name = 'x7mon_rec_%d' % SERIAL[0]
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return name, mod


def recorded(rng, mon):
    """Record in one test run, match in the next one (a new module object that reads the stored file)"""
    from x7.testing.support import RecordedData
    with tempfile.TemporaryDirectory(prefix='x7mon') as tmp, redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
        path = os.path.join(tmp, 'rec.py')
        with open(path, 'w') as out:
            out.write(MOD)
        data = [geometry(rng) for _ in range(rng.randint(1, 4))]
        names = []
        try:
            name, mod = load(path)
            names.append(name)
            mod.Recorded.setUpClass()
            case = mod.Recorded()
            for i, d in enumerate(data):
                case.assertMatch(d, 'case%d' % i, 'func')
            mod.Recorded.tearDownClass()
            name, mod = load(path)
            names.append(name)
            mod.Recorded.SAVE_MATCH = False
            mod.Recorded.setUpClass()
            case = mod.Recorded()
            for i, d in enumerate(data):
                key = 'case%d' % i
                what = type(d[0] if isinstance(d, list) else d).__name__
                try:
                    (case.assertMatchImage if what == 'Image' else case.assertMatch)(d, key, 'func')
                    mon.check(True, 'recorded-accepts')
                except AssertionError as err:
                    mon.check(False, 'recorded-accepts', d, str(err)[:300])
                d2 = changed(rng, d)
                try:
                    case.assertMatch(d2, key, 'func')
                    mon.check(False, 'recorded-rejects', d, d2)
                except AssertionError:
                    mon.check(True, 'recorded-rejects')
                if what in ('Point', 'Vector', 'ControlPoint'):
                    try:
                        case.assertAlmostMatch(d2, key, 'func')
                        mon.check(False, 'recorded-rejects', 'almost', d, d2)
                    except AssertionError:
                        mon.check(True, 'recorded-rejects')
                    case.assertAlmostMatch(d, key, 'func')
                mon.sig('recorded', what)
            try:
                case.assertMatch(data[0], 'never recorded', 'func')
                mon.check(False, 'recorded-rejects', 'unknown case')
            except AssertionError:
                mon.check(True, 'recorded-rejects')
        finally:
            for name in names:
                RecordedData.data.pop(name, None)
                sys.modules.pop(name, None)


def plots(rng, mon):
    """assertMatchPlot compares the figure drawn inside the context and leaves the plotting state alone"""
    import matplotlib.pyplot as plt

    class Plot(Case):
        stored = None

        def match(self, new_data, case='0', func=None, cls=None, matcher=None):
            mon.check(func == 'plots' and case == 'tag', 'plot', 'which case', func, case)
            self.image = new_data
            if self.stored is None:
                return True
            return True if self.stored.tobytes() == new_data.tobytes() else 'differs'
    case = Plot()
    plt.close('all')
    defaults = plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad']
    titles = rng.choice((defaults, (0.5, 11.0), (None, -3.0), (1.0, -20)))      # whatever the caller has set
    plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad'] = titles
    xs, ys = [gen.coord(rng) for _ in range(6)], [gen.coord(rng) for _ in range(6)]
    shrink = rng.choice((5, 10))

    def ctx(*data):
        cm = case.assertMatchPlot(shrink=shrink, case='tag', func='plots')
        with cm:
            plt.plot(*data, linewidth=4)
    ctx(xs, ys)
    first = case.image
    mon.check(first.mode == 'RGB' and not plt.get_fignums(), 'plot', 'closed', plt.get_fignums())
    case.stored = first
    ctx(xs, ys)
    mon.check(True, 'plot', 'same plot accepted')
    other = [-v for v in ys]
    if other != ys and min(ys) != max(ys):
        try:
            ctx(xs, other[::-1])
            mon.check(case.image.tobytes() == first.tobytes(), 'plot', 'different plot accepted')
        except Case.failureException:
            mon.check(True, 'plot', 'refused')
    mon.check((plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad']) == titles and not plt.get_fignums(), 'plot', 'state',
              plt.get_fignums())
    # the context works out the name of the calling function
    with case.assertMatchPlot(shrink=shrink, case='tag'):
        plt.plot(xs, ys, linewidth=4)
    dc = case.simple_dc(rng.randint(1, 50))
    mon.check(dc.matrix.as_6tuple() == Transform().as_6tuple() and snap.snap(dc.layer) is not None, 'plot', 'simple_dc')
    plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad'] = defaults
    mon.sig('plot', shrink, case.image.size)
    plt.close('all')


KINDS = [(xy_pairs, 4500, 40000), (cp_pairs, 2700, 20000), (lists, 2700, 20000), (types, 600, 3000), (closeness, 1200, 8000),
         (recorded, 240, 1200), (plots, 48, 192)]
