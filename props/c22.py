"""C22: animation runs produce the right frames."""
import os
import shutil
import tempfile

from PIL import Image
from x7.geom.geom import Point
from x7.geom.transform import Transform
from x7.geom.colors import PenBrush, Pen, Brush
from x7.geom.model import Group, ElemCurve, ElemRectangle
from x7.geom.drawing import DrawingContext, bbox_max
from x7.geom import anim
from x7.geom.anim import Builder, Animation, AnimationHolder, AnimationLinear, AnimationSinusoidal, Morph
from x7.geom.anim_simple import SimpleAnimation
from monlib import gen, ref, pix, snap
from props import c18

TECHNIQUE = 'runtime monitoring: recorded draw calls (exactly once, in order) and frames against an independent painter model'
RULE = ('random simple animations (odd boxes, sizes, step counts, time ranges, repeated runs, manual steps) and random models '
        'with animations run through a builder; every draw call is logged and every stored frame is compared with the painter '
        'model and with an independent drawing of a twin model; scaled, cropped and thinned images are probed pixel-wise; saved GIFs are read back frame by frame. '
        'Non-trivial: at least two frames; distinct by sizes, times and what was drawn.')
ASSUMPTIONS = ['the palette helpers and Builder.save_animation do not work with the installed Pillow and are not exercised',
               'a simple animation is saved with frame times that GIF can store (multiples of 10 ms); the command that would show it is not run',
               'Builder.show_frame needs a macOS font and stays off']
REQUIRED = {'saved': 800, 'calls': 200, 'count': 400, 'size': 700, 'fill': 4000, 'background': 5400, 'corner': 1000, 'own-frame': 400,
            'builder-times': 130, 'builder-frame': 400, 'builder-base': 300, 'scaled-size': 600, 'alpha': 600, 'order': 600,
            'crop': 260, 'encloses': 300, 'bbox_max': 400}

GREY = (128, 128, 128, 255)


def box_map(box, size):
    xl, yl, xh, yh = box
    sx, sy = size[0]/(xh-xl), size[1]/(yh-yl)
    return sx, 0, -xl*sx, 0, -sy, size[1] + yl*sy


def draw_random(rng, dc, a):
    """Draw something in the pixel frame of the map a; returns the paint operations"""
    inv = ref.aff_inv(a)
    w, h = dc.background.size
    ops = []
    for _ in range(rng.randint(0, 3)):
        c = rng.choice(('red', 'blue', (1, 2, 3, 255), 'white'))
        center = (rng.uniform(0, w), rng.uniform(0, h))
        loop = [cp.c.xy() for cp in gen.poly_cps(rng, r=rng.uniform(10, 30), center=center)]
        pts = [ref.aff(inv, p) for p in loop]
        k = rng.random()
        if k < 0.5:
            dc.polygon([Point(*p) for p in pts] if rng.random() < 0.5 else pts, fill=c, outline=None)
            ops.append(pix.Op(c, loops=[loop]))
        elif k < 0.8:
            xl, yl, xh, yh = min(p[0] for p in loop), min(p[1] for p in loop), max(p[0] for p in loop), max(p[1] for p in loop)
            e = ElemRectangle('r', PenBrush(None, Brush(c)), Point(*ref.aff(inv, (xl, yl))), Point(*ref.aff(inv, (xh, yh))))
            e.draw(dc)
            ops.append(pix.Op(c, loops=[[(xl, yl), (xh, yl), (xh, yh), (xl, yh)]]))
        else:
            p, q = pts[0], pts[1]
            wid = rng.choice((1, 4, 9))
            dc.line(*p, *q, color=c, width=wid)
            ops.append(pix.Op(c, stroke=[loop[0], loop[1]], closed=False, width=wid))
    return ops


def corners(dc, a, size):
    """Paint the four corner regions, in model space"""
    inv = ref.aff_inv(a)
    w, h = size
    dx, dy = w/4, h/4
    out = []
    for c, (x, y) in (('red', (0, 0)), ('lime', (w, 0)), ('blue', (0, h)), ('white', (w, h))):
        sx, sy = (1 if x == 0 else -1), (1 if y == 0 else -1)
        px = [(x - sx*5, y - sy*5), (x + sx*dx, y - sy*5), (x + sx*dx, y + sy*dy), (x - sx*5, y + sy*dy)]
        dc.polygon([ref.aff(inv, p) for p in px], fill=c, outline=None)
        out.append((c, (0 if x == 0 else w-1, 0 if y == 0 else h-1)))
    return out


def random_box(rng):
    xl, yl = rng.choice((-250, 0, rng.uniform(-300, 300))), rng.choice((-250, 0, rng.uniform(-300, 300)))
    return xl, yl, xl + rng.choice((50, 500, rng.uniform(1, 800))), yl + rng.choice((50, 500, rng.uniform(1, 800)))


def simple(rng, mon):
    size = rng.choice(((60, 60), (90, 40), (45, 100), (rng.randint(30, 90), rng.randint(30, 90))))
    box = random_box(rng)
    steps = rng.randint(1, 7)
    t_low, t_high = rng.choice(((0.0, 1.0), (0, 1), (rng.uniform(-3, 3), rng.uniform(4, 9)), (1.0, -1.0), (0.25, 0.5)))
    a = box_map(box, size)
    log, frames = [], []
    with_corners = rng.random() < 0.4

    def draw(dc, t):
        log.append(t)
        mon.check(len(sa.images) == len(log) - 1, 'own-frame', 'stored before being drawn', len(sa.images), len(log))
        mon.near(gen.aff_of(dc.matrix), a, 'corner', 'matrix', box, size, rel=1e-7, scale=1000)
        marks = corners(dc, a, size) if with_corners else []
        ops = [] if with_corners else draw_random(rng, dc, a)
        # the frame carries a number of its own
        n = len(log)
        dc.draw.point((size[0]//2, size[1]//2), fill=(n, 255-n, 7, 255))
        frames.append((ops, marks, (n, 255-n, 7, 255)))

    kw = dict(image_size=size, draw_bbox=box, steps=steps, t_low=t_low, t_high=t_high)
    if rng.random() < 0.2 and steps != 20:
        kw.pop('t_low')
        kw.pop('t_high')
        t_low, t_high = 0.0, 1.0
    sa = SimpleAnimation(draw, **kw)
    runs = rng.choice((1, 1, 1, 2))
    for _ in range(runs):
        sa.animate()
    want = [t_low + (t_high-t_low)*k/steps for k in range(steps+1)] * runs
    mon.check(len(log) == len(want), 'calls', len(log), len(want))
    mon.near(log, want, 'calls', 'times', rel=1e-9, scale=10)
    mon.check(len(sa.images) == len(log), 'count', len(sa.images), len(log))
    for im, (ops, marks, tag) in zip(sa.images, frames):
        mon.check(im.size == size, 'size', im.size, size)
        mon.check(im.getpixel((size[0]//2, size[1]//2)) == tag, 'own-frame', im.getpixel((size[0]//2, size[1]//2)), tag)
        for c, p in marks:
            mon.check(im.getpixel(p) == pix.rgba(c), 'corner', box, size, p, im.getpixel(p), c)
        if not marks:
            im = im.copy()
            mid = size[0]//2, size[1]//2
            for p in c18.probes(rng, 15, size) + c18.inside_probes(rng, ops, 15, size):
                w = pix.expected(ops, p)
                if w is None or p == mid:
                    continue
                got = im.getpixel(p)
                if w[0] == 'bg':
                    mon.check(c18.close(got, GREY), 'background', p, got)
                else:
                    mon.check(c18.close(got, pix.rgba(w[1])), 'fill', p, got, w[1])
    mon.check(len({id(im) for im in sa.images}) == len(sa.images), 'own-frame', 'shared image')
    mon.sig('simple', size, box, want)


def long_run(rng, mon):
    """Many frames, each with one mark of its own that no other frame has"""
    size = rng.randint(16, 30), rng.randint(16, 30)
    box = random_box(rng)
    inv = ref.aff_inv(box_map(box, size))
    steps = rng.choice((rng.randint(8, 60), rng.randint(60, 320)))
    t_low, t_high = rng.choice(((0.0, 1.0), (rng.uniform(-3, 3), rng.uniform(4, 9)), (1.0, -1.0), (0.25, -100)))
    log, marks = [], []

    def draw(dc, t):
        log.append(t)
        x, y = rng.randrange(2, size[0]-2), rng.randrange(2, size[1]-2)
        sq = [(x-1, y-1), (x+2, y-1), (x+2, y+2), (x-1, y+2)]
        dc.polygon([Point(*ref.aff(inv, q)) for q in sq], fill='red', outline=None)
        marks.append((x, y))

    sa = SimpleAnimation(draw, image_size=size, draw_bbox=box, steps=steps, t_low=t_low, t_high=t_high)
    sa.animate()
    mon.near(log, [t_low + (t_high-t_low)*k/steps for k in range(steps+1)], 'calls', 'long', steps, rel=1e-9, scale=100)
    mon.check(len(sa.images) == steps+1 and len({id(im) for im in sa.images}) == steps+1, 'count', 'long', steps)
    for im, (x, y) in zip(sa.images, marks):
        mon.check(im.size == size, 'size')
        mon.check(im.getpixel((x, y)) == (255, 0, 0, 255), 'own-frame', 'long', (x, y), im.getpixel((x, y)))
        n = sum(1 for c, v in im.getcolors() if v != GREY for _ in range(c))
        mon.check(1 <= n <= 25, 'own-frame', 'other marks', steps, n)
    # a builder over as many steps
    m = Group('g', PenBrush('black'))
    p1 = Point(0, 0)
    m.add('r', ElemRectangle('r', PenBrush(None, Brush('red')), p1, Point(30, 30)))
    holder, times = AnimationHolder(), []
    holder.add(Recorder(times))
    b = Builder(Image.new('RGBA', size), Transform(), m, holder)
    out = b.build_all(steps)
    mon.check(len(out) == len(b.images) == steps and len({id(im) for im in out}) == steps, 'count', 'long builder')
    mon.near(times, [k/steps for k in range(steps)], 'builder-times', 'long', scale=1)
    mon.sig('long', size, box, steps, t_low)


def manual(rng, mon):
    """Frames are stored when their step is finished"""
    size = (rng.randint(20, 60), rng.randint(20, 60))
    box = random_box(rng)
    a = box_map(box, size)
    sa = SimpleAnimation(None, image_size=size, draw_bbox=box)
    tags = []
    for n in range(1, rng.randint(2, 6)):
        tag = (n, 50, 60, 255)
        if rng.random() < 0.7:
            with sa.next_step() as dc:
                mon.check(len(sa.images) == len(tags), 'count', 'stored early')
                marks = corners(dc, a, size)
                dc.draw.point((size[0]//2, size[1]//2), fill=tag)
        else:
            step = sa.next_step()
            dc = step.__enter__()
            marks = corners(dc, a, size)
            dc.draw.point((size[0]//2, size[1]//2), fill=tag)
            mon.check(len(sa.images) == len(tags), 'count', 'stored early')
            sa.finish_step(dc)
        tags.append(tag)
        mon.check(len(sa.images) == len(tags), 'count', len(sa.images), len(tags))
        for c, p in marks:
            mon.check(sa.images[-1].getpixel(p) == pix.rgba(c), 'corner', box, size, p)
    for im, tag in zip(sa.images, tags):
        mon.check(im.size == size, 'size')
        mon.check(im.getpixel((size[0]//2, size[1]//2)) == tag, 'own-frame', tag)
    mon.sig('manual', size, box, len(tags))


class Recorder(Animation):
    def __init__(self, log):
        super().__init__(Point(0, 0))
        self.log = log

    def update(self, t):
        self.log.append(t)


def animated(state):
    """A model with animations, from a seeded description (called twice for independent twins)"""
    import random
    rng = random.Random(state)
    m = c18.model(rng, 1)
    m.hidden = False
    holder = AnimationHolder()
    p1, p2 = Point(-20 + rng.uniform(-9, 9), -15), Point(5, 10 + rng.uniform(-9, 9))
    e = ElemRectangle('moving', PenBrush(Pen('black', rng.choice((1, 3))), Brush('orange')), p1, p2)
    m.add('moving', e)
    holder.add(AnimationLinear(p1, Point(rng.uniform(-40, 40), rng.uniform(-40, 40))))
    holder.add(AnimationSinusoidal(p2, Point(rng.uniform(-40, 40), rng.uniform(-40, 40)), frequency=rng.choice((1, 2))))
    if rng.random() < 0.4:
        src = ElemCurve('src', PenBrush(None, Brush('cyan')), gen.blob(rng, n=4, r=15), closed=True)
        tgt = ElemCurve('tgt', PenBrush(None, Brush('cyan')), gen.blob(rng, n=4, r=25), closed=True)
        twin = Group('plain', PenBrush('black'))
        twin.add('src', src)
        m.add('plain', twin)
        holder.add(Morph(twin, src, tgt, rng.choice((lambda t: t, lambda t: None if t < 0.4 else t))))
    return m, holder


def builder(rng, mon):
    state = rng.random()
    m, holder = animated(state)
    m2, holder2 = animated(state)
    log = []
    holder.add(Recorder(log))
    matrix, bg = c18.screen(rng), c18.background(rng)
    a = gen.aff_of(matrix)
    draft = rng.random() < 0.4
    before = bg.mode, bg.tobytes()
    kw = {} if draft and rng.random() < 0.5 else dict(draft=draft)
    b = Builder(bg, matrix, m, holder, **kw)
    steps = rng.randint(1, 5)
    if rng.random() < 0.3:
        b.build_one(rng.random())
        del log[:]
    out = b.build_all(steps)
    mon.check(len(out) == steps and len(b.images) == steps, 'count', len(out), len(b.images), steps)
    mon.near(log, [k/steps for k in range(steps)], 'builder-times', scale=1)
    times = [k/steps for k in range(steps)]
    extra = []
    if rng.random() < 0.5:
        t = rng.uniform(-0.2, 1.3)
        extra.append(b.build_one(t, 3) if rng.random() < 0.5 else b.build_one(t))
        mon.check(log[-1] == t and len(log) == steps+1, 'builder-times', log)
        mon.check(len(b.images) == steps, 'count', 'build_one stores nothing')
        times.append(t)
    order = list(enumerate(zip(list(out) + extra, times)))
    rng.shuffle(order)
    for k, (im, t) in order:
        holder2.update(t)
        dc = DrawingContext(bg, Transform(a), prod=not draft)
        m2.draw(dc)
        mon.check(im.size == bg.size and im.tobytes() == dc.image().tobytes(), 'builder-frame', k, t)
        c18.judge(rng, mon, im, bg, pix.painters(m2, a, not draft), 'frame', n=8)
    mon.check((bg.mode, bg.tobytes()) == before, 'builder-base')
    mon.check(gen.aff_of(matrix) == a and gen.aff_of(b.matrix) == a, 'builder-base', 'matrix', matrix)
    again = b.build_all(steps)
    mon.check([im.tobytes() for im in again] == [im.tobytes() for im in out], 'builder-frame', 'again')
    # without animations
    plain = Builder(bg, Transform(a), m2, draft=draft)
    mon.check(len(plain.build_all(2)) == 2, 'count')
    mon.check(plain.images[0].tobytes() == plain.images[1].tobytes(), 'builder-frame', 'still')
    mon.sig('builder', state, a, steps)


def frame(rng, size, n, full=False, mode='RGBA'):
    """A transparent frame with a box of its own colour; returns image, box (None if empty)"""
    im = Image.new(mode, size, (0,)*len(mode))
    if rng.random() < 0.12 and not full:
        return im, None
    w, h = size
    xl, yl = rng.randint(0, w//2), rng.randint(0, h//2)
    xh, yh = rng.randint(xl + w//4, w), rng.randint(yl + h//4, h)
    if full:
        xl, yl, xh, yh = 0, 0, w, h
    im.paste((n+1, 255-n, 30+n, 255)[:len(mode)], (xl, yl, xh, yh))
    return im, (xl, yl, xh, yh)


def images(rng, mon):
    size = rng.randint(24, 90), rng.randint(24, 90)
    n = gen.some(rng, 1, 6, 24)
    mode = rng.choice(('RGBA', 'RGBA', 'RGB'))
    full = rng.random() < 0.4
    made = [frame(rng, size, k, full, mode) for k in range(n)]
    frames = [im for im, b in made]
    boxes = [b for im, b in made if b]
    b = Builder(frames[0], Transform(), Group('g', PenBrush('black')))
    own = rng.random() < 0.5
    if own:
        b.images = list(frames)
    arg = {} if own else dict(images=list(frames))
    before = [im.tobytes() for im in frames]
    # bounding boxes
    bb = b.max_bbox(**arg)
    if boxes:
        mon.check(all(bb[0] <= x[0] and bb[1] <= x[1] and bb[2] >= x[2] and bb[3] >= x[3] for x in boxes), 'encloses', bb, boxes)
        want = (min(x[0] for x in boxes), min(x[1] for x in boxes), max(x[2] for x in boxes), max(x[3] for x in boxes))
        mon.check(tuple(bb) == want, 'encloses', bb, want)
    else:
        mon.check(bb is None, 'encloses', bb)
    x, y = [tuple(rng.sample(range(-50, 50), 4)) for _ in range(2)]
    x, y = [(min(v[0], v[2]), min(v[1], v[3]), max(v[0], v[2]), max(v[1], v[3])) for v in (x, y)]
    u = bbox_max(x, y)
    mon.check(tuple(u) == (min(x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]), max(x[3], y[3])), 'bbox_max', x, y, u)
    mon.check(tuple(bbox_max(y, x)) == tuple(u) and tuple(bbox_max(x, x)) == x, 'bbox_max', x, y)
    # scaling and cropping
    scale = rng.choice((1, 1, 2, 3, 4))
    crop = None
    if rng.random() < 0.5:
        crop = bb if boxes and rng.random() < 0.5 else \
            (rng.randint(0, size[0]//4), rng.randint(0, size[1]//4), rng.randint(size[0]//2, size[0]), rng.randint(size[1]//2, size[1]))
    out = b.scaled(scale, crop, **arg) if crop else b.scaled(scale, **arg)
    base = crop or (0, 0) + size
    ow, oh = base[2]-base[0], base[3]-base[1]
    mon.check(len(out) == n, 'count', len(out), n)
    for k, (im, (src, box)) in enumerate(zip(out, made)):
        mon.check(im.size == (ow//scale, oh//scale), 'scaled-size', im.size, ow, oh, scale)
        mon.check(im.mode == mode, 'scaled-size', 'mode', im.mode)
        if mode == 'RGBA':
            hist = im.getchannel('A').histogram()
            mon.check(all(not c for c in hist[1:255]), 'alpha', 'not binary', scale)
        if scale == 1:
            mon.check(im.tobytes() == src.crop(base).tobytes(), 'crop', k, base)
        # colours of this very frame, well inside and well outside its box
        zx, zy = ow/(ow//scale), oh/(oh//scale)
        for _ in range(6):
            p = rng.randrange(im.size[0]), rng.randrange(im.size[1])
            q = base[0] + (p[0]+0.5)*zx, base[1] + (p[1]+0.5)*zy
            m = 3*scale + 1
            got = im.getpixel(p)
            color = (k+1, 255-k, 30+k, 255)[:len(mode)]
            if box and (full or box[0]+m < q[0] < box[2]-m and box[1]+m < q[1] < box[3]-m):
                mon.check(c18.close(got, color), 'order', p, got, color)
            elif not box or not (box[0]-m < q[0] < box[2]+m and box[1]-m < q[1] < box[3]+m):
                mon.check(got == (0,)*len(mode), 'order', p, got, 'outside')
    mon.check([im.tobytes() for im in frames] == before and (not own or len(b.images) == n), 'builder-base', 'source images')
    # one image
    tx, ty = rng.randint(4, 60), rng.randint(4, 60)
    src = rng.choice(frames)
    if rng.random() < 0.5 and mode == 'RGBA':
        src = src.copy()
        src.putalpha(Image.eval(Image.linear_gradient('L').resize(size), lambda v: v))
    small = Builder.resize_for_gif(src, tx, ty)
    mon.check(small.size == (tx, ty), 'scaled-size', small.size)
    if mode == 'RGBA':
        mon.check(set(v for v, c in enumerate(small.getchannel('A').histogram()) if c) <= {0, 255}, 'alpha')
        alpha = src.getchannel('A')
        lo, hi = alpha.getextrema()
        if lo == 255:
            mon.check(small.getchannel('A').getextrema() == (255, 255), 'alpha', 'opaque stays opaque')
        if hi == 0:
            mon.check(small.getchannel('A').getextrema() == (0, 0), 'alpha', 'transparent stays transparent')
        mon.check(anim.getalpha(src).tobytes() == alpha.tobytes(), 'alpha', 'getalpha')
        c = rng.choice(('white', 'black', (10, 20, 30, 255)))
        comp = anim.composed(src, c)
        p = rng.randrange(size[0]), rng.randrange(size[1])
        mon.check(comp.size == size and c18.close(comp.getpixel(p), pix.over(pix.rgba(c), src.getpixel(p))), 'order', 'composed')
    mon.sig('images', size, n, scale, crop, bb)


def saved(rng, mon):
    """A simple animation saved as GIF plays its frames in order, each for the frame time, over and over"""
    size = rng.randint(12, 40), rng.randint(12, 40)
    w, h = size
    ms = rng.choice((20, 50, 100, 250, 500, 1000))
    still = rng.random() < 0.3

    def draw(dc, t):
        n = len(sa.images)
        if still and n > 2 and rng.random() < 0.5:
            n -= 1                          # the frame before, again
        x, y = n % (w-3), (3*n) % (h-3)
        dc.draw.rectangle((x, y, x+2, y+2), fill=('red', 'blue', 'white', 'black')[n % 4])

    sa = SimpleAnimation(draw, image_size=size, draw_bbox=random_box(rng), steps=gen.some(rng, 1, 8, 60, 0.05), frame_display_time=ms/1000)
    sa.animate()
    before = [im.tobytes() for im in sa.images]
    folder = tempfile.mkdtemp(prefix='c22-')
    real_system, real_save = os.system, Image.Image.save

    def save(im, fp, *args, **kwargs):
        # nothing is written outside the scratch folder
        if os.path.dirname(os.path.abspath(str(fp))) != folder:
            fp = os.path.join(folder, 'other-' + os.path.basename(str(fp)))
        return real_save(im, fp, *args, **kwargs)

    os.system, Image.Image.save = (lambda command: 0), save
    try:
        out = os.path.join(folder, 'out.gif')
        sa.save_animation(out)
        mon.check([im.tobytes() for im in sa.images] == before, 'saved', 'images changed')
        with Image.open(out) as gif:
            mon.check(gif.size == size, 'saved', 'size', gif.size)
            mon.check(gif.info.get('loop') == 0, 'saved', 'loop', gif.info.get('loop'))
            line = []
            for i in range(gif.n_frames):
                gif.seek(i)
                # equal frames in a row may be stored as one that is shown longer
                line += [gif.convert('RGBA').tobytes()] * round(gif.info['duration']/ms)
                mon.check(gif.info['duration'] % ms == 0, 'saved', 'time', gif.info['duration'], ms)
    finally:
        os.system, Image.Image.save = real_system, real_save
        shutil.rmtree(folder)
    mon.check(len(line) == len(before), 'saved', 'frames', len(line), len(before))
    for i, (a, b) in enumerate(zip(line, before)):
        mon.check(a == b, 'saved', 'frame', i, size, ms)
    mon.sig('saved', size, ms, len(before), still)


KINDS = [(simple, 750, 5000), (long_run, 180, 1200), (manual, 360, 2000), (builder, 660, 4000), (images, 1500, 12000), (saved, 200, 1500)]
