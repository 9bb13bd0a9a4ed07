"""C13: all views of a model agree on its geometry and structure."""
import contextlib
import io

from x7.geom.geom import BasePoint
from x7.geom.bezier import ControlPoint
from x7.geom.transform import Transform
from x7.geom.colors import PensByShape
from x7.geom.model import ElemCurve, ElemRectangle, Group, ElemWithHoles, GroupBuilder
from monlib import gen, ref, snap

TECHNIQUE = 'runtime monitoring: differential oracle between six views of one model and an independent flattening'
RULE = ('nested models (hidden and empty groups, holed elements, every leaf kind, arbitrary own transforms) are flattened by an '
        'independent walk (name, leaf, accumulated map); paths, control_paths, as_curves, iter_elems, iter_elems_transformed '
        'and lookup must all describe that list in that order. Non-trivial: at least one container below the root or two '
        'leaves; distinct by model state.')
ASSUMPTIONS = ['drawing views skip hidden groups, structural views include them',
               'rounded rectangles are converted by iter_elems_transformed only under similarity maps',
               'tolerance 1e-9 of the coordinates involved']
REQUIRED = {'deep-iteration': 900, 'paths': 900, 'control-paths': 800, 'as-curves': 900, 'shallow-iteration': 700,
            'lookup': 900, 'deep-draws': 900, 'display': 2000}
PPC = 20


def flatten(e, prefix, a, visible, out):
    """Reference list of leaves"""
    own = ref.aff_mul(a, gen.aff_of(e.xform))
    if isinstance(e, Group):
        for m in e.elems.values():
            flatten(m, prefix + [e.name], own, visible and not e.hidden, out)
    elif isinstance(e, ElemWithHoles):
        for part, m in [('outside', e.outside)] + [('inside', x) for x in e.inside]:
            out.append(('.'.join(prefix + [e.name, part, m.name]), m, own, visible, e))
    else:
        out.append(('.'.join(prefix + [e.name]), e, a, visible, None))
    return out


def size(ptss):
    return max([1.0] + [abs(v) for pts in ptss for p in pts for v in p])


def near(a, b, rel=1e-9):
    tol = rel*size([a, b])
    return len(a) == len(b) and all(abs(p[0]-q[0]) <= tol and abs(p[1]-q[1]) <= tol for p, q in zip(a, b))


def mapped(a, pts):
    return [ref.aff(a, p) for p in pts]


def cpts(points):
    out = []
    for p in points:
        if isinstance(p, ControlPoint):
            out += [p.c.xy(), p.l.xy(), p.r.xy()]
        else:
            assert isinstance(p, BasePoint)
            out.append(p.xy())
    return out


def isolated(leaf):
    """What a leaf draws on its own: one outline and one list of control points"""
    (pts,) = snap.outline_pts(leaf, ppc=PPC)
    (cp,) = leaf.control_paths(snap.dc())
    return pts, cpts(cp.points)


def contains_run(pts, run):
    n = len(run)
    return [i for i in range(len(pts)-n+1) if near(pts[i:i+n], run)]


def views(rng, mon, e, leaves, m):
    a = gen.aff_of(m)
    ctx = snap.dc(m.copy(), PPC)
    iso = {id(leaf): isolated(leaf) for _, leaf, _, _, _ in leaves}
    # drawing paths
    paths = [(p.penbrush, p.closed, [tuple(q) for q in p.points.tolist()]) for p in e.paths(ctx)]
    want, i = [], 0
    seen = set()
    for name, leaf, la, vis, ewh in leaves:
        if not vis:
            continue
        pts = mapped(la, iso[id(leaf)][0])
        if ewh is not None:
            if id(ewh) not in seen and ewh.penbrush.brush:
                want.append(('fill', ewh, None))
            seen.add(id(ewh))
            want.append(('edge', ewh, pts))
        else:
            want.append(('path', leaf, pts))
    mon.check(len(paths) == len(want), 'paths', 'count', len(paths), [w[0] for w in want])
    parts = {}
    for w, (pb, closed, pts) in zip(want, paths):
        kind, owner, ex = w
        if kind == 'path':
            mon.check(near(pts, ex) and pb == owner.penbrush and closed == owner.closed, 'paths', owner, pb, closed, pts, ex)
        elif kind == 'edge':
            mon.check(near(pts, ex) and not pb.filled and pb.stroked == owner.penbrush.stroked, 'paths', 'edge', owner)
            mon.check(not pb.stroked or pb.stroke_color == owner.penbrush.stroke_color, 'paths', 'edge colour')
        else:
            mon.check(pb.filled and not pb.stroked and pb.fill_color == owner.penbrush.fill_color, 'paths', 'fill style')
            parts[id(owner)] = pts
    # a holed fill path holds every outline of its element exactly once
    for _, leaf, la, vis, ewh in leaves:
        if vis and ewh is not None and id(ewh) in parts:
            run = mapped(la, iso[id(leaf)][0])
            mon.check(len(contains_run(parts[id(ewh)], run)) >= 1, 'paths', 'fill has outline', leaf)
    # control paths
    got = [cpts(c.points) for c in e.control_paths(ctx)]
    exp = [mapped(la, iso[id(leaf)][1]) for _, leaf, la, vis, _ in leaves if vis]
    mon.check(len(got) == len(exp) and all(near(g, x) for g, x in zip(got, exp)), 'control-paths', got, exp)
    # deep iteration
    root = rng.choice((None, 'root', 'my model'))
    it = list()
    for item in e.iter_elems(root, m):
        n, x, mat = item
        it.append((n, x, gen.aff_of(mat), snap.outline_pts(x, mat.copy(), PPC)))
    pre = root + '.' if root else ''
    mon.check([x[0] for x in it] == [pre + l[0] for l in leaves], 'deep-iteration', 'names', [x[0] for x in it],
              [pre + l[0] for l in leaves])
    mon.check(all('' not in x[0].split('.') for x in it), 'deep-iteration', 'empty component')
    mon.check([id(x[1]) for x in it] == [id(l[1]) for l in leaves], 'deep-iteration', 'elements')
    for x, l in zip(it, leaves):
        mon.near(x[2], l[2], 'deep-iteration', 'matrix', l[0], scale=size([x[3][0]]))
        mon.check(near(x[3][0], mapped(l[2], iso[id(l[1])][0])), 'deep-draws', l[0])
    # a matrix is optional
    bare = [(n, id(x)) for n, x, mat in e.iter_elems(root)]
    mon.check(bare == [(x[0], id(x[1])) for x in it], 'deep-iteration', 'no matrix')
    assert a


def curves(mon, e, leaves):
    """Conversion to curves: one per leaf, in the space the element lives in"""
    got = e.as_curves()
    mon.check(len(got) == len(leaves) and all(type(c) is ElemCurve for c in got), 'as-curves', 'count', len(got), len(leaves))
    for c, (name, leaf, la, vis, ewh) in zip(got, leaves):
        (pts,) = snap.outline_pts(c, ppc=PPC)
        want = mapped(la, isolated(leaf)[0])
        if isinstance(leaf, ElemRectangle):
            ok = near(pts[::PPC], want)
            s = size([want])
            ok = ok and all(ref.dist_polyline(p, want, closed=False) <= 1e-9*s for p in pts)
        else:
            ok = near(pts, want)
        mon.check(ok, 'as-curves', name, pts, want)
        mon.check(c.name == leaf.name and c.penbrush == leaf.penbrush and c.closed == leaf.closed, 'as-curves', 'style', name)


def shallow(rng, mon, e, m):
    """Shallow iteration yields every direct part, transformed, under its dotted name"""
    a = ref.aff_mul(gen.aff_of(m), gen.aff_of(e.xform))
    root = rng.choice((None, 'r'))
    pre = (root + '.' if root else '') + e.name
    if isinstance(e, Group):
        want = [(pre + '.' + x.name, x) for x in e.elems.values()]
    else:
        want = [(pre + '.outside.' + e.outside.name, e.outside)] + [(pre + '.inside.' + x.name, x) for x in e.inside]
    names = [x.name for _, x in want]
    got = list(e.iter_elems_transformed(root, m))
    mon.check([x.name for x in got] == [n for n, _ in want], 'shallow-iteration', 'names', [x.name for x in got])
    mon.check([x.name for _, x in want] == names, 'shallow-iteration', 'member renamed')
    for g, (n, x) in zip(got, want):
        mon.check(type(g) is type(x) and g.closed == x.closed and g.penbrush == x.penbrush and g is not x,
                  'shallow-iteration', 'kind', n)
        gp, xp = snap.outline_pts(g, ppc=PPC), snap.outline_pts(x, ppc=PPC)
        ok = len(gp) == len(xp)
        for p, q in zip(gp, xp):
            q = mapped(a, q)
            if isinstance(x, (ElemCurve, Group, ElemWithHoles)):
                ok = ok and near(p, q, 1e-8)
            else:       # a box shape may start elsewhere
                s = size([q])
                ok = ok and len(p) == len(q) and all(min(abs(u[0]-v[0])+abs(u[1]-v[1]) for v in q) < 1e-7*s for u in p) and \
                    all(min(abs(u[0]-v[0])+abs(u[1]-v[1]) for v in p) < 1e-7*s for u in q)
        mon.check(ok, 'shallow-iteration', 'outline', n, gp, xp)


def lookups(rng, mon, top, leaves):
    """Dotted names below the top resolve to the very element"""
    for name, leaf, la, vis, ewh in leaves:
        rel = name[len(top.name)+1:]
        if ewh is None:
            mon.check(top.lookup(rel) is leaf, 'lookup', rel)
        else:
            tail = name[:-len(leaf.name)-1].rpartition('.')[2]
            mon.check(ewh.lookup(tail + '.' + leaf.name) is leaf, 'lookup', 'part', name)
            mon.check(top is ewh or top.lookup(rel[:-len(tail + '.' + leaf.name)-1]) is ewh, 'lookup', 'holed', rel)
    if leaves and isinstance(top, Group):
        bad = leaves[0][0][len(top.name)+1:]
        for q in (bad + 'zz', 'zz' + bad, 'no such'):
            mon.raises((KeyError, ValueError), lambda q=q: top.lookup(q), 'lookup', 'unknown', q)


def groups(rng, mon):
    g = gen.group(rng, depth=rng.randint(0, 3), hidden=True)
    if rng.random() < 0.2:
        g.add('empty-group', Group('empty-group', gen.penbrush(rng, False)))
    m = gen.transform(rng)
    before = snap.snap(g)
    leaves = flatten(g, [], gen.aff_of(m), True, [])
    views(rng, mon, g, leaves, m)
    curves(mon, g, flatten(g, [], ref.IDENT, True, []))
    lookups(rng, mon, g, leaves)
    mon.check(snap.snap(g) == before, 'model-kept')
    # a builder is a view of its group
    if rng.random() < 0.2:
        b = GroupBuilder('b', PensByShape(), group=g)
        mon.check([(n, id(x), gen.aff_of(t)) for n, x, t in b.iter_elems(matrix=m)] ==
                  [(n, id(x), gen.aff_of(t)) for n, x, t in g.iter_elems(matrix=m)], 'builder-view')
        if leaves and leaves[0][4] is None:
            mon.check(b.lookup(leaves[0][0][len(g.name)+1:]) is leaves[0][1], 'builder-view', 'lookup')
    if len(leaves) > 1:
        mon.sig(before)
        mon.sample(repr(g)[:400])


def holed(rng, mon):
    e = gen.holed(rng)
    m = gen.transform(rng)
    leaves = flatten(e, [], gen.aff_of(m), True, [])
    views(rng, mon, e, leaves, m)
    curves(mon, e, flatten(e, [], ref.IDENT, True, []))
    lookups(rng, mon, e, leaves)
    mon.sig(snap.snap(e))


def leaf(rng, mon):
    e = gen.elem(rng)
    m = gen.transform(rng)
    a = ref.aff_mul(gen.aff_of(m), gen.aff_of(e.xform))
    ((n, x, mat),) = list(e.iter_elems('root', m))
    mon.check(n == 'root.' + e.name and x is e, 'deep-iteration', 'leaf', n)
    mon.near(gen.aff_of(mat), gen.aff_of(m), 'deep-iteration', 'leaf matrix')
    curves(mon, e, [(e.name, e, ref.IDENT, True, None)])
    # control points, outline, digitised points and curve form agree
    (cp,) = e.control_paths(snap.dc(m.copy()))
    (pts,) = snap.outline_pts(e, m.copy(), PPC)
    digi = [gen.cp_tuple(c) for c in e.as_digi_points()]
    segs = [[ref.aff(a, p) for p in s] for s in ref.segs_of(digi, e.closed)]
    if isinstance(e, ElemRectangle):
        mon.check(near([s[0] for s in segs] + [segs[0][0]], pts), 'digi-points', e)
        mon.check(near(cpts(cp.points), pts[:-1]), 'control-paths', 'rectangle', e)
    else:
        n = PPC
        want = [ref.cubic(s, k/n) for i, s in enumerate(segs) for k in range(1 if i else 0, n+1)]
        mon.check(near(pts, want), 'digi-points', e, pts, want)
        exp = []
        for c, dl, dr in digi:
            exp += [ref.aff(a, c), ref.aff(a, (c[0]+dl[0], c[1]+dl[1])), ref.aff(a, (c[0]+dr[0], c[1]+dr[1]))]
        mon.check(near(cpts(cp.points), exp), 'control-paths', 'leaf', e)
        # another resolution draws the same curve
        if isinstance(e, ElemCurve):
            k = rng.choice((1, 2, 5, 13))
            (other,) = snap.outline_pts(e, m.copy(), k)
            want = [ref.cubic(s, i/k) for j, s in enumerate(segs) for i in range(1 if j else 0, k+1)]
            mon.check(near(other, want), 'paths', 'resolution', k, e)
    mon.sig(snap.snap(e))


def shallow_case(rng, mon):
    k = rng.random()
    if k < 0.5:
        e = gen.group(rng, depth=rng.randint(0, 2), hidden=True, kinds=('curve', 'rect', 'ellipse'))
        m = gen.transform(rng)
    elif k < 0.75:
        e = gen.group(rng, depth=0, xform=gen.transform(rng, 'similar'), elem_xform='similar', holes=False)
        m = gen.transform(rng, 'similar')
    else:
        e = gen.holed(rng, xform=gen.transform(rng, 'similar'))
        m = gen.transform(rng, 'similar')
    before = snap.snap(e)
    shallow(rng, mon, e, m)
    mon.check(snap.snap(e) == before, 'model-kept', 'shallow')
    mon.check(isinstance(m, Transform) and [x.name for x in e.iter_elems_transformed()] ==
              [x.name for x in e.iter_elems_transformed(None, Transform())], 'shallow-iteration', 'default matrix')
    mon.sig('shallow', before)


CLASSES = ('ElemGroup', 'ElemWithHoles', 'ElemCurve', 'ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse')


def parsed(text, prefix):
    """[(depth, class or heading, rest of the line)...] of a printed model"""
    out = []
    for line in text.splitlines():
        if not line.startswith(prefix):
            return line
        body = line[len(prefix):]
        head, sep, rest = body.strip().partition(':')
        if sep and head in CLASSES + ('Outside', 'Inside', 'Point', 'Transform'):
            out.append((len(body) - len(body.lstrip(' ')), head, rest))
    return out


def shown(mon, lines, e):
    """Take the lines of one element off the list, checking what they say; members may come in any order"""
    depth, head, rest = lines.pop(0)
    mon.check(head == {Group: 'ElemGroup'}.get(type(e), type(e).__name__) and e.name in rest, 'display', 'head', head, rest, e)
    below = []
    while lines and lines[0][0] > depth:
        below.append(lines.pop(0))
    mon.check(any(b[1] == 'Transform' and b[0] == min(x[0] for x in below) for b in below) == (gen.aff_of(e.xform) != ref.IDENT)
              if isinstance(e, (Group, ElemWithHoles)) else True, 'display', 'transform', e)
    if isinstance(e, Group):
        mon.check(('hidden' in rest) == e.hidden and ('visible' in rest) == (not e.hidden), 'display', 'hidden', rest)
        level = min([b[0] for b in below], default=0)
        pts = [b[2] for b in below if b[1] == 'Point' and b[0] == level]
        mon.check(len(pts) == len(e.points) and all(any(n in p for p in pts) for n in e.points), 'display', 'points', pts)
        left = dict(e.elems)
        below = [b for b in below if b[1] not in ('Transform', 'Point') or b[0] > level]
        while below:
            name = next((n for n, x in left.items() if below[0][1] == {Group: 'ElemGroup'}.get(type(x), type(x).__name__) and
                         below[0][2].replace("'", ' ').split()[:1] == [n]), None)
            mon.check(name is not None, 'display', 'unknown member', below[0], list(left))
            shown(mon, below, left.pop(name))
        mon.check(not left, 'display', 'members missing', left)
    elif isinstance(e, ElemWithHoles):
        heads = [b[1] for b in below if b[1] in ('Outside', 'Inside')]
        mon.check(heads == ['Outside', 'Inside'], 'display', 'parts', heads)
        i, j = (k for k, b in enumerate(below) if b[1] in heads)
        outside, inside = below[i+1:j], below[j+1:]
        shown(mon, outside, e.outside)
        for x in e.inside:
            mon.check(bool(inside), 'display', 'hole missing', e)
            shown(mon, inside, x)
        mon.check(not outside and not inside, 'display', 'more parts', outside, inside)


def displays(rng, mon):
    """The printed form of a model shows every element, nested as it is"""
    k = rng.random()
    if k < 0.7:
        e = gen.group(rng, depth=rng.randint(0, 3), hidden=True, plain=True)
        for i in range(rng.randint(0, 2)):
            e.add_pt('pt%d' % i, gen.pt(rng))
    else:
        e = gen.holed(rng) if k < 0.85 else gen.elem(rng)

    def rename(x, n):           # names that can be told in the text
        x.name = n
        if isinstance(x, Group):
            members = list(x.elems.values())
            rng.shuffle(members)
            x.elems = {'m%d' % i: y for i, y in enumerate(members)}
            for n, y in x.elems.items():
                rename(y, n)
        elif isinstance(x, ElemWithHoles):
            for i, y in enumerate([x.outside] + x.inside):
                rename(y, 'part%d' % i)
    rename(e, 'top')
    detail, prefix = rng.choice((0, 1)), rng.choice(('', '> '))
    before = snap.snap(e)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        e.display(detail=detail, prefix=prefix)
    mon.check(snap.snap(e) == before, 'model-kept', 'display')
    lines = parsed(out.getvalue(), prefix)
    mon.check(isinstance(lines, list), 'display', 'prefix', lines)
    shown(mon, lines, e)
    mon.check(not lines, 'display', 'too much', lines)
    mon.check(('closed=' in out.getvalue()) == bool(detail and list(e.iter_elems('r'))), 'display', 'detail', detail)
    mon.sig('display', before, detail)


KINDS = [(displays, 900, 9000), (groups, 3000, 25000), (holed, 900, 6000), (leaf, 2400, 15000), (shallow_case, 1800, 12000)]
