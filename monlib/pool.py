"""Histories over a pool of transforms that are built from and composed with one another.

Every transform has a shadow (plain affine 6-tuple and explicit stack); after every step all members of the pool are
compared with their shadows, so that any sharing of state between transforms becomes observable.
"""
from x7.geom.geom import Point
from x7.geom.transform import Transform, Matrix, EmptyStackError
from monlib import gen, ref


def moderate(m):
    return max(abs(v) for v in m) < 1e6 and abs(ref.aff_det(m)) > 1e-6


class Shadowed:
    def __init__(self, t, m):
        self.t = t
        self.m = m
        self.stack = []
        self.asked = False


def history(rng, mon, inverse=0.0, steps=(4, 18)):
    pool = []
    for _ in range(rng.randint(2, 4)):
        k = rng.random()
        if k < 0.4:
            pool.append(Shadowed(Transform(), ref.IDENT))
        else:
            m = gen.mat6(rng)
            pool.append(Shadowed(Transform(m), m))
    mats = []           # Matrix arguments, which stay the caller's
    trail = []
    for _ in range(gen.some(rng, *steps)):
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        a, b = pool[i], pool[j]
        new, call = None, None
        k = rng.choice(('op', 'op', 'noop', 'compose', 'compose', 'compose_outer', 'set_matrix', 'copy', 'push', 'push', 'pop',
                        'pop', 'reset', 'matrix', 'rebuild', 'with', 'ask', 'enter'))
        if k == 'op':
            name, args = gen.op(rng)
            mat, where = gen.ref_op(name, args)
            new = ref.aff_mul(mat, a.m) if where == 'outer' else ref.aff_mul(a.m, mat)
            call = lambda: gen.real_op(a.t, name, args)
        elif k == 'noop':
            new = a.m
            call = rng.choice((lambda: a.t.translate(0, 0), lambda: a.t.scale(1, 1), lambda: a.t.rotate(0),
                               lambda: a.t.compose(Transform()), lambda: a.t.compose_outer(Transform()),
                               lambda: a.t.rotate_about(0, Point(3, 4)), lambda: a.t.push().pop()))
        elif k == 'compose':
            new, call = ref.aff_mul(a.m, b.m), lambda: a.t.compose(b.t)
        elif k == 'compose_outer':
            new, call = ref.aff_mul(b.m, a.m), lambda: a.t.compose_outer(b.t)
        elif k == 'set_matrix':
            new, call = b.m, lambda: a.t.set_matrix(b.t)
        elif k == 'reset':
            new, call = ref.IDENT, a.t.reset
        elif k == 'matrix':
            m = gen.mat6(rng) if rng.random() < 0.7 else ref.IDENT
            mat = Matrix([m[0:3], m[3:6], (0, 0, 1)])
            mats.append((mat, tuple(tuple(float(v) for v in r) for r in mat.ndmat)))
            if rng.random() < 0.5:
                new, call = ref.aff_mul(a.m, m), lambda: a.t.compose(mat)
            else:
                new, call = ref.aff_mul(m, a.m), lambda: a.t.compose_outer(mat)
        elif k == 'copy':
            c = Shadowed(a.t.copy(), a.m)
            pool.append(c)
            if len(pool) > 6:
                del pool[0]
        elif k == 'rebuild':
            pool.append(Shadowed(Transform(a.t.as_6tuple()), a.m))
            if len(pool) > 6:
                del pool[0]
        elif k == 'push':
            if len(a.stack) < 8:
                mon.check(a.t.push() is a.t, 'pool-push')
                a.stack.append(a.m)
        elif k == 'pop':
            if a.stack:
                a.t.pop()
                a.m = a.stack.pop()
                mon.count('pool-pop')
            else:
                mon.raises(EmptyStackError, a.t.pop, 'pool-empty-pop', trail)
        elif k == 'with':
            try:
                with a.t.push().translate(3, 4).scale(2, 2):
                    if rng.random() < 0.5:
                        a.t.set_matrix(b.t)
                    if rng.random() < inverse + 0.3 and moderate(gen.aff_of(a.t)):
                        a.t.untransform(1, 1)
                    if rng.random() < 0.4:
                        raise KeyError('body')
            except KeyError:
                pass
        elif k == 'enter':
            if not a.stack:
                def enter():
                    with a.t:
                        pass
                mon.raises(EmptyStackError, enter, 'pool-empty-enter', trail)
        elif k == 'ask' and moderate(a.m):
            a.t.untransform(1, 2)
            a.asked = True
        if call:
            if not moderate(new):
                continue
            call()
            a.m = new
        trail.append((k, i, j))
        for n, s in enumerate(pool):
            sc = 1e3 * max([1.0] + [abs(v) for v in s.m])
            if not mon.near(s.t.as_6tuple(), s.m, 'pool-map', trail, n, scale=sc):
                return
            if (s.asked or rng.random() < 0.3) and rng.random() < inverse and ref.aff_cond(s.m) < 1e4:
                inv = ref.aff_inv(s.m)
                if rng.random() < 0.5:
                    p = gen.xy(rng)
                    got, exp = s.t.untransform(*p), ref.aff(inv, p)
                else:
                    got, exp = [float(v) for r in s.t.inverse[:2] for v in r], inv
                s.asked = True
                cond = ref.aff_cond(s.m)
                if not mon.near(got, exp, 'pool-inverse', trail, n,
                                scale=cond * 1e3 * max(max(abs(v) for v in inv), 1) * max(abs(v) for v in s.m)):
                    return
    # unwind everything: each transform has its own stack
    rng.shuffle(pool)
    for s in pool:
        while s.stack:
            s.t.pop()
            s.m = s.stack.pop()
            mon.near(s.t.as_6tuple(), s.m, 'pool-unwind', trail, scale=1e3 * max([1.0] + [abs(v) for v in s.m]))
        mon.raises(EmptyStackError, s.t.pop, 'pool-empty-pop', trail)
        mon.near(s.t.as_6tuple(), s.m, 'pool-map', 'end', trail, scale=1e3 * max([1.0] + [abs(v) for v in s.m]))
    for mat, rows in mats:
        mon.check(tuple(tuple(float(v) for v in r) for r in mat.ndmat) == rows, 'pool-matrix-kept', trail)
    if len({k for k, _, _ in trail}) >= 3:
        mon.sig('pool', tuple(trail))
