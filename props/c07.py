"""C07: push/pop/with is a strict LIFO discipline."""
from x7.geom.geom import Point, BBox
from x7.geom.transform import Transform, EmptyStackError
from monlib import gen, pool, ref

RULE = ('seeded programs of nested push/pop/with blocks (exceptions of several classes raised at random depths) interleaved '
        'with every mutator, copies and set_matrix, checked online against an explicit shadow stack of the maps observed at '
        'push time. Non-trivial: at least one restore after an intervening mutation; distinct by event trail.')
REQUIRED = {'restore': 3000, 'empty-pop': 300, 'empty-with': 100, 'exception-exit': 300, 'copy-stack': 100}


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def now(t):
    return tuple(t.as_6tuple())


def mutate(rng, t, trail, others):
    k = rng.random()
    if k < 0.7:
        name, args = gen.op(rng)
        gen.real_op(t, name, args)
    elif k < 0.78:
        name = 'reset'
        t.reset()
    elif k < 0.88:
        name = 'set_matrix'
        t.set_matrix(rng.choice(others))
    elif k < 0.94:
        name = 'scale_bbox'
        t.scale_bbox(BBox(0, 0, 2, 3), BBox(1, 1, 7, 5), rng.random() < 0.5)
    else:
        name = 'untransform'
        if abs(ref.aff_det(gen.aff_of(t))) > 1e-6:
            t.untransform(1, 2)
    trail.append(name)


def block(rng, mon, t, shadow, trail, others, depth):
    """Random program; leaves the stack as it found it unless `loose` pushes were made (recorded in shadow)."""
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if max(abs(v) for v in now(t)) > 1e7:
            t.reset()
        if k < 0.40:
            mutate(rng, t, trail, others)
        elif k < 0.55:
            shadow.append(now(t))
            mon.check(t.push() is t, 'push-returns-self')
            mon.check(now(t) == shadow[-1], 'push-keeps-map', trail)
            trail.append('push')
        elif k < 0.68:
            trail.append('pop')
            if shadow:
                exp = shadow.pop()
                t.pop()
                mon.check(now(t) == exp, 'restore', 'pop', trail, now(t), exp)
            elif isinstance(shadow, _Floor):
                trail.pop()         # popping the with's own entry is outside the discipline
            else:
                before = now(t)
                mon.raises(EmptyStackError, t.pop, 'empty-pop', trail)
                mon.check(now(t) == before, 'empty-unchanged', trail)
        elif k < 0.90 and depth < 5:
            with_block(rng, mon, t, shadow, trail, others, depth)
        elif k < 0.95:
            dup = t.copy()
            mon.check(now(dup) == now(t), 'copy-map', trail)
            before = now(t)
            mon.raises(EmptyStackError, dup.pop, 'copy-stack', 'copy carries pushes', trail)
            dup.push()
            dup.translate(7, 7)
            mon.check(now(t) == before, 'copy-independent', trail)
            trail.append('copy')
        else:
            trail.append('probe')


MORE = (EmptyStackError, ValueError, TypeError, AssertionError, ZeroDivisionError, OSError, AttributeError, NotImplementedError,
        ArithmeticError, LookupError, IndexError, GeneratorExit, KeyboardInterrupt, SystemExit)


def with_block(rng, mon, t, shadow, trail, others, depth):
    saved = now(t)
    boom = rng.choice((None, None, Boom, BaseBoom, KeyError, StopIteration, rng.choice(MORE))) if rng.random() < 0.6 else None
    trail.append('with' + (boom.__name__ if boom else ''))
    err = boom('x') if boom else None
    try:
        t.push()
        shadow.append(saved)
        with t as inside:
            mon.check(inside is t, 'with-yields-self')
            sub = _Floor()      # loose pushes inside the body are popped before leaving
            mutate(rng, t, trail, others)
            block(rng, mon, t, sub, trail, others, depth + 1)
            while sub:
                exp = sub.pop()
                t.pop()
                mon.check(now(t) == exp, 'restore', 'unwind', trail)
            mutate(rng, t, trail, others)
            if err:
                raise err
        shadow.pop()
    except (Boom, BaseBoom, KeyError, StopIteration) + MORE as got:
        if err is None:
            raise
        mon.check(got is err, 'exception-propagates', got, err)
        mon.count('exception-exit')
        shadow.pop()
    else:
        mon.check(err is None, 'exception-propagates', 'swallowed', boom)
    trail.append('}')
    mon.check(now(t) == saved, 'restore', 'with', trail, now(t), saved)


class _Floor(list):
    """Shadow stack of a with-body: only what was pushed inside may be popped inside"""


def program(rng, mon):
    others = [gen.transform(rng), gen.transform(rng)]
    frozen = [now(o) for o in others]
    t = gen.transform(rng) if rng.random() < 0.6 else Transform()
    shadow, trail = [], []
    for _ in range(rng.randint(1, 4)):
        block(rng, mon, t, shadow, trail, others, 0)
    while shadow:
        exp = shadow.pop()
        t.pop()
        mon.check(now(t) == exp, 'restore', 'final unwind', trail)
    before = now(t)
    mon.raises(EmptyStackError, t.pop, 'empty-pop', trail)
    mon.check(now(t) == before, 'empty-unchanged', trail)

    entered = []

    def enter():
        with t:
            entered.append(1)
    mon.raises(EmptyStackError, enter, 'empty-with', trail)
    mon.check(not entered, 'empty-with', 'entered', trail)
    mon.check(now(t) == before, 'empty-unchanged', trail)
    mon.check([now(o) for o in others] == frozen, 'sources-unchanged', trail)
    if len(trail) > 3:
        mon.sig(tuple(trail))
        mon.sample(trail)


def deep(rng, mon):
    """Deep towers of pushes, then unwinding in order"""
    t = Transform()
    shadow = []
    n = gen.some(rng, 5, 60, 600)
    for _ in range(n):
        shadow.append(now(t))
        t.push()
        if rng.random() < 0.8:
            name, args = gen.op(rng)
            gen.real_op(t, name, args)
        if max(abs(v) for v in now(t)) > 1e7:
            t.reset()
    while shadow:
        exp = shadow.pop()
        t.pop()
        mon.check(now(t) == exp, 'restore', 'deep', n)
        if shadow and rng.random() < 0.3:
            t.translate(1, 1)
    mon.raises(EmptyStackError, t.pop, 'empty-pop', 'deep')
    mon.sig('deep', n, rng.random())


def pooled(rng, mon):
    pool.history(rng, mon, inverse=0.1)


KINDS = [(program, 12000, 60000), (deep, 800, 3200), (pooled, 4800, 30000)]
