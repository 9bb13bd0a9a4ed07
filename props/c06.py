"""C06: untransform is always the inverse of the current transform."""
from x7.geom.geom import Point, BBox
from x7.geom.transform import Transform
from monlib import gen, pool, ref

RULE = ('seeded histories of 2-16 steps mixing every transform mutator (incl. rotate_about, push/pop, with-blocks, set_matrix, '
        'reset, scale_bbox, copies and transforms built from others) with inverse queries at random moments; the inverse is '
        'recomputed from a shadow affine product. Non-trivial: a mutation happens after an inverse was requested; distinct by '
        'step names and rounded matrix.')
ASSUMPTIONS = ['checked where the current map has condition number below 1e5']
REQUIRED = {'untransform': 2000, 'stale-opportunity': 2000, 'singular': 100}


def query(mon, t, m, rng, trail):
    cond = ref.aff_cond(m)
    if not cond < 1e5:
        return False
    inv = ref.aff_inv(m)
    p = gen.xy(rng)
    q = ref.aff(m, p)
    sc = max(100.0, abs(q[0]), abs(q[1]), max(abs(v) for v in m), max(abs(v) for v in inv) * 100) * cond
    which = rng.randrange(5)
    if which == 0:
        mon.near(t.untransform(*q), p, 'untransform', trail, scale=sc)
    elif which == 1:
        got = t.untransform_pt(Point(*q))
        mon.check(isinstance(got, Point), 'untransform_pt-type', got)
        mon.near(got.xy(), p, 'untransform', 'pt', trail, scale=sc)
    elif which == 2:
        ps = [p, (0, 0), (1, -1)] + [gen.xy(rng) for _ in range(gen.some(rng, 0, 0, 30, 0.02))]
        got = t.untransform_pts([ref.aff(m, p) for p in ps])
        mon.near([v for g in got for v in g], [v for p in ps for v in p], 'untransform', 'pts', trail, scale=sc)
    elif which == 3:
        got = t.inverse
        rows = [[float(v) for v in row] for row in got]
        mon.near(rows[0] + rows[1] + rows[2], list(inv) + [0, 0, 1], 'untransform', 'inverse', trail, scale=sc)
    else:
        mon.near(t.untransform(*t.transform(*p)), p, 'untransform', 'round trip', trail, scale=sc)
        mon.near(t.transform(*t.untransform(*p)), p, 'untransform', 'round trip 2', trail, scale=sc)
    return True


def step(rng, mon, t, m, stack, trail, others, depth):
    """One random mutation; returns new reference map"""
    k = rng.random()
    if k < 0.5:
        name, args = gen.op(rng)
        mat, where = gen.ref_op(name, args)
        gen.real_op(t, name, args)
        m = ref.aff_mul(mat, m) if where == 'outer' else ref.aff_mul(m, mat)
    elif k < 0.58:
        name, args = 'push', ()
        t.push()
        stack.append(m)
    elif k < 0.68 and stack:
        name, args = 'pop', ()
        t.pop()
        m = stack.pop()
    elif k < 0.74 and depth < 3:
        name, args = 'with', ()
        trail.append('with{')
        saved = m
        with t.push():
            stack.append(saved)
            mm = m
            for _ in range(rng.randint(1, 3)):
                mm = inner(rng, mon, t, mm, stack, trail)
        stack.pop()
        trail.append('}')
        m = saved
        return m
    elif k < 0.82:
        src, sm = rng.choice(others)
        name, args = 'set_matrix', ()
        if rng.random() < 0.7:
            src.untransform(1, 2)       # source has a cached inverse
        t.set_matrix(src)
        m = sm
    elif k < 0.86:
        name, args = 'reset', ()
        t.reset()
        m = ref.IDENT
    elif k < 0.91:
        src, sm = rng.choice(others)
        name, args = 'compose-other', ()
        t.compose(src)
        m = ref.aff_mul(m, sm)
    elif k < 0.96:
        a, b = BBox(0, 0, rng.randint(1, 9), rng.randint(1, 9)), BBox(rng.randint(-9, 0), 0, rng.randint(1, 9), rng.randint(1, 9))
        name, args = 'scale_bbox', ()
        t.scale_bbox(a, b)
        mat = (b.width/a.width, 0, b.xl, 0, b.height/a.height, b.yl)
        m = ref.aff_mul(mat, m)
    else:
        # mutate another transform: nothing may leak into t
        i = rng.randrange(len(others))
        src, sm = others[i]
        name, args = 'other-mutates', ()
        src.translate(3, 4).rotate(30)
        others[i] = (src, ref.aff_mul(ref.mat_cw(30), ref.aff_mul(ref.mat_translate(3, 4), sm)))
    trail.append((name, args))
    return m


def inner(rng, mon, t, m, stack, trail):
    name, args = gen.op(rng)
    mat, where = gen.ref_op(name, args)
    gen.real_op(t, name, args)
    trail.append((name, args))
    m = ref.aff_mul(mat, m) if where == 'outer' else ref.aff_mul(m, mat)
    if rng.random() < 0.6:
        query(mon, t, m, rng, trail)
    return m


def history(rng, mon):
    others = []
    for _ in range(2):
        m = gen.mat6(rng)
        others.append((Transform(m), m))
    m = gen.mat6(rng) if rng.random() < 0.5 else ref.IDENT
    t = Transform(m) if m is not ref.IDENT else Transform()
    stack, trail = [], []
    asked = False
    hot = 0
    for _ in range(gen.some(rng, 2, 16, 90)):
        if rng.random() < 0.55:
            asked = query(mon, t, m, rng, trail) or asked
        if asked:
            mon.count('stale-opportunity')
            hot += 1
        m = step(rng, mon, t, m, stack, trail, others, 0)
        if not max(abs(v) for v in m) < 1e7:
            return
        if asked:
            query(mon, t, m, rng, trail)
        if rng.random() < 0.12:
            old, om = t, m
            t = t.copy()
            t.scale(2, -1)
            m = ref.aff_mul(ref.mat_scale(2, -1), m)
            trail.append('copy+scale')
            stack = []
            query(mon, old, om, rng, trail)
            query(mon, t, m, rng, trail)
    query(mon, t, m, rng, trail)
    for src, sm in others:
        query(mon, src, sm, rng, ['other'] + trail)
    if hot:
        mon.sig(tuple(n if isinstance(n, str) else n[0] for n in trail), tuple(round(v, 3) for v in m))
        mon.sample(trail, m)


def singular(rng, mon):
    t = gen.transform(rng) if rng.random() < 0.5 else Transform()
    m = gen.aff_of(t)
    if rng.random() < 0.5:
        t.untransform(1, 1)
    t.push()
    t.reset()
    t.translate(rng.randint(-5, 5), rng.randint(-5, 5))
    t.scale(*rng.choice(((0, 1), (1, 0), (0, 0), (0, 5), (-3, 0))))
    which = rng.randrange(4)
    call = [lambda: t.untransform(1, 2), lambda: t.untransform_pt(Point(1, 2)), lambda: t.untransform_pts([(1, 2)]),
            lambda: t.inverse][which]
    mon.raises(Exception, call, 'singular', which)
    mon.raises(Exception, call, 'singular', 'again', which)
    t.pop()
    query(mon, t, m, rng, ['after singular'])
    mon.sig('singular', which, tuple(round(v, 3) for v in m))


def pooled(rng, mon):
    pool.history(rng, mon, inverse=0.5)


KINDS = [(history, 16000, 100000), (singular, 1200, 5000), (pooled, 6000, 30000)]
