"""C17: group membership stays consistent under every editing sequence."""
from x7.geom.geom import Point
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.model import Elem, ElemCurve, ElemRectangle, ElemEllipse, ElemRectangleRounded, Group, GroupBuilder
from monlib import gen

TECHNIQUE = 'runtime monitoring: shadow ordered map compared with the real membership tables after every edit of random histories'
RULE = ('random histories of add / add with name fixing / replace / add_pt / builder calls over nested groups with colliding, dotted '
        'and generated-looking names, refused edits included; after every call the tables of every group, the names, the lookup '
        'of every dotted path and the iteration order are compared with a shadow ordered map. '
        'Non-trivial: at least four edits of which one refused or one replacement; distinct by history.')
ASSUMPTIONS = ['an element object is a member of one group at a time unless a replacement put it in several places',
               'models searched by replace contain no holed elements (their replace is documented as not implemented)',
               'point registration refuses with AssertionError']
REQUIRED = {'tables': 30000, 'lookup': 12900, 'refused': 2700, 'name-fixed': 3000, 'replaced': 2000, 'replace-refused': 700,
            'builder': 3000, 'points': 2000, 'unknown-path': 15000}

NAMES = ['a', 'b', 'c', 'leg', 'curve', 'curve#0', 'curve#1', 'rectangle#0', 'rectangle', 'group#0', 'ellipse#0',
         'ellipse#1', 'rectanglerounded#0', 'Curve', '#0', "it's", 'x y', 'outside', 'sub']
DOTTED = ['a.b', 'x.curve', 'leg.leg', '.a', 'a.b.c', 'sub.a', '..q', 'r.curve#0', 'one.two.new']
UNKNOWN = ['nope', 'a.nope', 'nope.a', '?', 'curve#99', 'A', 'a..b']


class Shadow(object):
    """Expected tables: id(group) -> [(name, element)...]"""

    def __init__(self, root):
        self.tab = {id(root): []}
        self.pts = {id(root): []}
        self.root = root
        self.keep = [root]      # tracked groups stay alive, so their ids stay theirs

    def groups(self):
        out, seen = [], set()

        def walk(g):
            if id(g) in seen:
                return
            seen.add(id(g))
            out.append(g)
            for n, e in self.tab[id(g)]:
                if isinstance(e, Group):
                    walk(e)
        walk(self.root)
        return out

    def adopt(self, g):
        """Start tracking a group (and its members) that was built elsewhere"""
        if id(g) not in self.tab:
            self.keep.append(g)
            self.tab[id(g)] = list(g.elems.items())
            self.pts[id(g)] = list(g.points.items())
            for n, e in self.tab[id(g)]:
                if isinstance(e, Group):
                    self.adopt(e)

    def paths(self):
        """Every dotted path and the element it names"""
        out = []

        def walk(g, base, depth):
            for n, e in self.tab[id(g)]:
                out.append((base + n, e))
                if isinstance(e, Group) and depth < 6:
                    walk(e, base + n + '.', depth+1)
        walk(self.root, '', 0)
        return out

    def verify(self, mon, *why):
        for g in self.groups():
            want, got = self.tab[id(g)], list(g.elems.items())
            mon.check([n for n, e in got] == [n for n, e in want] and all(a is b for (_, a), (_, b) in zip(got, want)),
                      'tables', [n for n, e in got], [n for n, e in want], *why)
            mon.check(all(n == e.name and '.' not in n for n, e in got), 'tables', 'own name',
                      [(n, e.name) for n, e in got], *why)
            got = list(g.points.items())
            want = self.pts[id(g)]
            mon.check([n for n, p in got] == [n for n, p in want] and all(a is b for (_, a), (_, b) in zip(got, want)) and
                      all(n == p.name for n, p in got), 'points', got, want, *why)

    def verify_lookup(self, mon, rng):
        for path, e in self.paths():
            mon.check(self.root.lookup(path) is e, 'lookup', path)
        for g in self.groups():
            for n, p in self.pts[id(g)]:
                mon.check(g.lookup_pt(n) is p, 'points', 'lookup', n)
        known = {p for p, e in self.paths()}
        for bad in UNKNOWN + [rng.choice(NAMES) + '.' + rng.choice(NAMES) for _ in range(3)] + [rng.choice(NAMES)]:
            if bad not in known:
                mon.raises((KeyError, ValueError), lambda: self.root.lookup(bad), 'unknown-path', bad, sorted(known))
        leaves = [(p, e) for p, e in self.paths() if not isinstance(e, Group)]
        if leaves:
            p, e = rng.choice(leaves)
            mon.raises((KeyError, ValueError), lambda: self.root.lookup(p + '.x'), 'unknown-path', 'below a leaf', p)
        seen = [e for n, e, t in self.root.iter_elems()]
        mon.check(len(seen) == len(leaves) and all(a is b for a, (_, b) in zip(seen, leaves)), 'lookup', 'order', seen, leaves)


def leaf(rng, nm):
    return gen.elem(rng, nm=nm, pb=rng.choice((PenBrush('red'), PenBrush('black', 'blue'))))


def small_group(rng, nm):
    g = Group(nm, PenBrush('black'), hidden=rng.random() < 0.25, xform=gen.transform(rng) if rng.random() < 0.3 else None,
              closed=rng.random() < 0.2)
    for n in rng.sample(NAMES, rng.randint(0, 2)):
        g.add(n, leaf(rng, n))
    return g


def pick_name(rng):
    return rng.choice(NAMES) if rng.random() < 0.8 else rng.choice(DOTTED)


def do_add(rng, mon, sh, hist):
    g = rng.choice(sh.groups())
    nm = pick_name(rng)
    own = rng.choice(NAMES + DOTTED)
    if rng.random() < 0.25 and len(sh.groups()) < 8:
        e = small_group(rng, own)
    else:
        e = leaf(rng, own)
    fix = rng.random() < 0.5
    taken = {n for n, _ in sh.tab[id(g)]}
    hist.append(('add', nm, fix))
    if not fix and ('.' in nm or nm in taken):
        mon.raises(ValueError, lambda: g.add(nm, e), 'refused', nm, sorted(taken))
        mon.check(e.name == own, 'refused', 'renamed', e.name, own)
        return True
    if fix:
        g.add(nm, e, rng.choice((True, 1)) if rng.random() < 0.5 else True)
    else:
        g.add(nm, e)
    got = e.name
    if '.' in nm or nm in taken:
        mon.check(got not in taken and '.' not in got, 'name-fixed', nm, got, sorted(taken))
    else:
        mon.check(got == nm, 'name-fixed', 'free name kept', nm, got)
    sh.adopt(e) if isinstance(e, Group) else None
    sh.tab[id(g)].append((got, e))
    return False


def do_replace(rng, mon, sh, hist):
    """Replace an element that may occur at several levels"""
    cands = [(p, e) for p, e in sh.paths()]
    if not cands:
        return False
    path, target = rng.choice(cands)
    # the plan, from the state before the call
    hits = []           # (group, position)

    def scan(g):
        for i, (n, e) in enumerate(sh.tab[id(g)]):
            if e == probe:
                hits.append((g, i))
            elif isinstance(e, Group):
                scan(e)
    probe = target if isinstance(target, Group) or rng.random() < 0.6 else target.copy()
    if probe is not target and probe != target:
        probe = target
    if rng.random() < 0.1:
        probe = leaf(rng, 'nowhere to be found')
    scan(sh.root)
    nm = target.name if rng.random() < 0.4 else pick_name(rng)
    rep = leaf(rng, nm) if len(hits) > 1 or rng.random() < 0.75 else small_group(rng, nm)
    if rep == probe:
        return False
    bad = bool(hits) and ('.' in nm or any(nm in [n for j, (n, _) in enumerate(sh.tab[id(g)]) if j != i] for g, i in hits))
    root = sh.root
    hist.append(('replace', path, nm, len(hits)))
    if bad:
        mon.raises(ValueError, lambda: root.replace(probe, rep), 'replace-refused', path, nm, len(hits))
        mon.check(rep.name == nm, 'replace-refused', 'renamed')
        return True
    count = root.replace(probe, rep)
    mon.check(count == len(hits), 'replaced', 'count', count, len(hits), path)
    if hits and isinstance(rep, Group):
        sh.adopt(rep)
    for g, i in hits:
        sh.tab[id(g)][i] = (nm, rep)
    mon.check(rep.name == nm, 'replaced', 'name', rep.name, nm)
    return bool(hits)


def do_spread(rng, mon, sh, hist):
    """Put equal elements into several groups"""
    e = leaf(rng, rng.choice(NAMES))
    done = 0
    for g in sh.groups():
        if rng.random() < 0.6 and e.name not in g.elems:
            c = e.copy() if done else e
            g.add(c.name, c)
            sh.tab[id(g)].append((c.name, c))
            done += 1
    hist.append(('spread', e.name, done))


def do_point(rng, mon, sh, hist):
    g = rng.choice(sh.groups())
    nm = pick_name(rng)
    p = gen.pt(rng)
    taken = {n for n, _ in sh.pts[id(g)]}
    hist.append(('point', nm))
    if '.' in nm or nm in taken:
        mon.raises((AssertionError, ValueError, KeyError), lambda: g.add_pt(nm, p), 'refused', 'point', nm, sorted(taken))
        return True
    mon.check(g.add_pt(nm, p) is p, 'points', 'returned')
    sh.pts[id(g)].append((nm, p))
    mon.raises((KeyError, AssertionError, ValueError), lambda: g.lookup_pt('no such point'), 'unknown-path')
    return False


def history(rng, mon):
    g = Group('root', PenBrush('black'), hidden=rng.random() < 0.1)
    sh = Shadow(g)
    hist = []
    special = 0
    for _ in range(gen.some(rng, 4, 25, 120, 0.015)):
        k = rng.random()
        if k < 0.5:
            special += bool(do_add(rng, mon, sh, hist))
        elif k < 0.6:
            do_spread(rng, mon, sh, hist)
        elif k < 0.85:
            special += bool(do_replace(rng, mon, sh, hist))
        else:
            special += bool(do_point(rng, mon, sh, hist))
        sh.verify(mon, hist)
    sh.verify_lookup(mon, rng)
    if len(hist) >= 4 and special:
        mon.sig(hist)
        mon.sample(hist)


def crowded(rng, mon):
    """Name fixing in groups full of generated-looking names"""
    g = Group('root', PenBrush('black'))
    sh = Shadow(g)
    kinds = {'curve': ElemCurve, 'rect': ElemRectangle, 'ellipse': ElemEllipse, 'rrect': ElemRectangleRounded}
    hist = []
    for _ in range(rng.randint(3, 12)):       # pre-populate in random order
        k = rng.choice(list(kinds))
        nm = '%s#%d' % (kinds[k].__name__[4:].lower(), rng.randint(0, 4))
        if nm not in g.elems:
            e = gen.elem(rng, k, nm=nm)
            g.add(nm, e)
            sh.tab[id(g)].append((nm, e))
            hist.append(nm)
    for _ in range(gen.some(rng, 2, 12, 60)):
        k = rng.choice(list(kinds))
        taken = set(g.elems)
        e = gen.elem(rng, k)
        nm = rng.choice(sorted(taken) + DOTTED + ['x.' + rng.choice(sorted(taken))] if taken else DOTTED)
        g.add(nm, e, fixname=True)
        mon.check(e.name not in taken and '.' not in e.name, 'name-fixed', nm, e.name, sorted(taken))
        sh.tab[id(g)].append((e.name, e))
        hist.append((nm, e.name))
        sh.verify(mon, hist)
    sh.verify_lookup(mon, rng)
    # constructors
    es = [leaf(rng, rng.choice(NAMES + DOTTED)) for _ in range(rng.randint(1, 6))]
    before = [e.name for e in es]
    h = Group('built', PenBrush('black'), elems=rng.choice((list, tuple))(es), fix_names=True)
    mon.check(list(h.elems.values()) == es and all(a is b for a, b in zip(h.elems.values(), es)) and
              all(n == e.name and '.' not in n for n, e in h.elems.items()) and len(h.elems) == len(es), 'tables', 'built', before)
    es = [leaf(rng, n) for n in rng.choices(NAMES, k=rng.randint(1, 5))]
    names = [e.name for e in es]
    if len(set(names)) < len(names):
        mon.raises(ValueError, lambda: Group('built', PenBrush('black'), elems=es), 'refused', 'constructor', names)
    else:
        table = {e.name: e for e in es}
        for h in (Group('b', PenBrush('black'), elems=es), Group('b', PenBrush('black'), elems=table)):
            h.add('extra thing', leaf(rng, 'q'))
            mon.check(list(h.elems) == names + ['extra thing'] and len(es) == len(table) == len(names), 'tables', 'constructor')
    # tables handed in stay the caller's
    pts = {n: gen.pt(rng, n) for n in rng.sample(NAMES, rng.choice((0, 0, 1, 3)))}
    given = list(pts.items())
    a, b = Group('a', PenBrush('black'), points=pts), Group('b', PenBrush('black'), points=pts)
    p = a.add_pt('only in a', gen.pt(rng))
    mon.check(list(b.points.items()) == given == list(pts.items()) and list(a.points.items()) == given + [('only in a', p)],
              'points', 'own table', a.points, b.points, pts)
    mon.sig('crowded', hist)


def builder(rng, mon):
    pens = PensByShape(filled=PenBrush('black', 'red'))
    if rng.random() < 0.6:
        b = GroupBuilder('root', pens)
    else:                               # a builder for a group that exists
        g = small_group(rng, 'root')
        b = GroupBuilder(rng.choice(('root', 'other', '')), pens, group=g)
        mon.check(b.the_group is g and g.name == 'root', 'builder', 'existing group')
    sh = Shadow(b.the_group)
    sh.tab[id(b.the_group)] = list(b.the_group.elems.items())
    builders = [b]
    hist = []
    special = 0
    for _ in range(rng.randint(3, 16)):
        cur = rng.choice(builders)
        g = cur.the_group
        nm = pick_name(rng)
        taken = {n for n, _ in sh.tab[id(g)]}
        bad = '.' in nm or nm in taken
        p, q = gen.pt(rng), gen.pt(rng)
        kind = rng.choice((None, 'edge', 'filled', PenBrush('green', 'tan')))
        k = rng.randrange(8)
        hist.append((k, nm))
        calls = [lambda: cur.rect(nm, p, q, kind), lambda: cur.rrect(nm, p, q, 3, kind), lambda: cur.ellipse(nm, p, q, kind),
                 lambda: cur.curve(nm, gen.cps(rng), kind), lambda: cur.group(nm),
                 lambda: cur.add(nm, leaf(rng, 'z'))]
        if k < 6:
            if bad:
                mon.raises(ValueError, calls[k], 'refused', 'builder', nm)
                special += 1
            else:
                got = calls[k]()
                if k == 4:
                    builders.append(got)
                    mon.check(got.name == nm, 'builder', 'name')
                    got = got.the_group
                    sh.adopt(got)
                elif k == 5:
                    mon.check(cur.lookup(nm).name == nm, 'builder', 'added')
                    got = cur.lookup(nm)
                else:
                    cls = (ElemRectangle, ElemRectangleRounded, ElemEllipse, ElemCurve)[k]
                    mon.check(type(got) is cls, 'builder', 'type', got)
                    pb = kind if isinstance(kind, PenBrush) else cur.pens_by_shape[kind or 'edge']
                    mon.check(got.penbrush == pb, 'builder', 'style', got, kind)
                    if k < 3:
                        mon.check(got.closed is True and got.p1.xy() == p.xy() and got.p2.xy() == q.xy(), 'builder', got, p, q)
                    else:
                        mon.check(got.closed == pb.filled, 'builder', 'closed', got.closed, kind)
                mon.check(cur.lookup(nm) is got and isinstance(got, Elem), 'builder', nm, got)
                sh.tab[id(g)].append((nm, got))
        elif k == 6:
            x, y = gen.xy(rng)
            if '.' in nm or nm in dict(sh.pts[id(g)]):
                mon.raises((AssertionError, ValueError, KeyError), lambda: cur.point(nm, x, y), 'refused', 'builder point', nm)
            else:
                pt = cur.point(nm, x, y)
                mon.check(pt == Point(x, y, nm) and cur.lookup_pt(nm) is pt, 'builder', 'point', pt)
                sh.pts[id(g)].append((nm, pt))
        else:
            members = [e for n, e in sh.tab[id(g)] if not isinstance(e, Group)]
            if members:
                old = rng.choice(members)
                rep = leaf(rng, nm)
                hits = [i for i, (n, e) in enumerate(sh.tab[id(g)]) if e == old]
                inner = [g]
                while inner:    # equal elements further down
                    h = inner.pop()
                    for i, (n, e) in enumerate(sh.tab[id(h)]):
                        if isinstance(e, Group):
                            inner.append(e)
                        elif h is not g and e == old:
                            hits = None
                if hits is None:
                    continue
                if bad and nm != old.name or '.' in nm:
                    mon.raises(ValueError, lambda: cur.replace(old, rep), 'replace-refused', 'builder', nm)
                    special += 1
                else:
                    mon.check(cur.replace(old, rep) == len(hits), 'replaced', 'builder')
                    for i in hits:
                        sh.tab[id(g)][i] = (nm, rep)
                    special += 1
        sh.verify(mon, hist)
    sh.verify_lookup(mon, rng)
    mon.check([n for n, e, t in b.iter_elems()] == ['root.' + p for p, e in sh.paths() if not isinstance(e, Group)],
              'builder', 'iter names')
    if special and len(hist) >= 4:
        mon.sig('b', hist)


KINDS = [(history, 6000, 40000), (crowded, 2800, 15000), (builder, 4800, 25000)]
