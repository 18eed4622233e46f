"""C17 histories: several bitmaps, selections and files through long sequences of operations, against the grid model."""
import os, tempfile
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
from . import c08
from .c09 import sub
from .c10 import blow
import pythonbmp.BITMAPlib as b
from pythonbmp import fonts

P = Prop('C17', ['up to four bitmaps, selections and files are alive at once', 'known finding KF1 (last pixel of 4-bit runs) is allowed for',
                 'shapes are compared with the same call on an empty bitmap; what they look like is decided by the other properties'])
SLOTS = 3


class World:
    def __init__(self, dir):
        self.b, self.m, self.sel, self.files, self.dir = [], [], [], [], dir
        self.log = []

    def put(self, k, bmp, img):
        k %= SLOTS
        while len(self.b) <= k:
            self.b.append(b.newBMP(3, 2, 24))
            self.m.append(M.Img(3, 2, 24))
        self.b[k], self.m[k] = bmp, img

    def take(self, k, must, may, c):
        """Pixels painted c in slot k; those of `may` as found, if that is c or the old value."""
        img = self.m[k]
        c = M.mask(c, img.bits)
        if may:
            got = M.parse(self.b[k])
        for x, y in must:
            img.px[y][x] = c
        for x, y in may - must:
            if got.px[y][x] == c:
                img.px[y][x] = c


TAKES = {}


def op(n, weight=1):
    def deco(f):
        TAKES[f.__name__] = (f, n, weight)
        return f
    return deco


def spot(img, x, y, pad=4):
    return x % (img.w + 2 * pad) - pad, y % (img.h + 2 * pad) - pad


def within(img, a, e, c, d):
    x = sorted((a % img.w, c % img.w))
    y = sorted((e % img.h, d % img.h))
    return x[0], y[0], x[1], y[1]


def ink(img, c):
    return M.mask(c * 0x010203, img.bits) if img.bits > 1 else c & 1


def newimg(w, h, bits):
    return M.Img(w, h, bits, pal=None if bits == 24 else M.defaultpal(bits))


@op(3)
def create(w, k, p):
    bits = M.BITS[p[2] % 4]
    x, y = 1 + p[0] % 40, 1 + p[1] % 30
    w.put(p[0] + p[1], b.newBMP(x, y, bits), newimg(x, y, bits))


@op(3, 3)
def pixel(w, k, p):
    img = w.m[k]
    x, y = spot(img, p[0], p[1])
    c = ink(img, p[2])
    b.plotxybit(w.b[k], x, y, c)
    img.set(x, y, c)


@op(4, 2)
def across(w, k, p):
    img = w.m[k]
    x, y = spot(img, p[0], p[1])
    x2 = x + p[2] % 30
    if x2 < 0 or x >= img.w:
        return
    c = ink(img, p[3])
    b.horiline(w.b[k], y, x, x2, c)
    w.take(k, *S.runs(img, [(y, x, x2)]), c)


@op(4)
def down(w, k, p):
    img = w.m[k]
    x, y = spot(img, p[0], p[1])
    y2 = y + p[2] % 20
    if y2 < 0 or y >= img.h:
        return
    c = ink(img, p[3])
    b.vertline(w.b[k], x, y, y2, c)
    w.take(k, S.clip({(x, j) for j in range(y, y2 + 1)}, img), set(), c)


@op(5, 2)
def block(w, k, p):
    img = w.m[k]
    x1, y1, x2, y2 = within(img, *p[:4])
    c = ink(img, p[4])
    b.filledrect(w.b[k], x1, y1, x2, y2, c)
    w.take(k, *S.runs(img, [(y, x1, x2) for y in range(y1, y2 + 1)]), c)


@op(4)
def disc(w, k, p):
    img = w.m[k]
    x, y = spot(img, p[0], p[1], 8)
    r, c = p[2] % 12, ink(img, p[3])
    b.circle(w.b[k], x, y, r, c, True)
    w.take(k, *S.runs(img, S.disc_runs(x, y, r)), c)


def _text(bmp, x, y, q, c):
    b.plotstring(bmp, x, y, 'aZ'[:1 + q % 2], 1, 0, 0, c, fonts.font8x8)


SHAPES = [lambda bmp, x, y, u, v, q, c: b.line(bmp, x, y, u, v, c), lambda bmp, x, y, u, v, q, c: b.circle(bmp, x, y, q % 12, c, False), lambda bmp, x, y, u, v, q, c: _text(bmp, x, y, q, c),
          lambda bmp, x, y, u, v, q, c: b.thickroundline(bmp, [x, y], [u, v], q % 4, c), lambda bmp, x, y, u, v, q, c: b.drawvec(bmp, [x, y], [u, v], 4, c), lambda bmp, x, y, u, v, q, c: b.ellipse(bmp, x, y, 1 + q % 9, 1 + q % 7, c),
          lambda bmp, x, y, u, v, q, c: b.plotlines(bmp, [[x, y], [u, v], [q, y]], c), lambda bmp, x, y, u, v, q, c: b.rectangle(bmp, x, y, u, v, c), lambda bmp, x, y, u, v, q, c: b.squircle(bmp, x, y, q % 9, c),
          lambda bmp, x, y, u, v, q, c: b.ellipse(bmp, x, y, 1 + q % 9, 1 + q % 7, c, True), lambda bmp, x, y, u, v, q, c: b.plotxypointlist(bmp, [[x, y], [u, v]], q % 4, c)]


@op(7, 4)
def shape(w, k, p):
    """A shape covers the same pixels whatever was there before."""
    img = w.m[k]
    x1, y1, x2, y2 = within(img, *p[:4])
    if p[6] & 1:
        x1, x2 = x2, x1
    c = ink(img, p[5])
    f = SHAPES[p[6] // 2 % len(SHAPES)]
    scratch = b.newBMP(img.w, img.h, img.bits)
    one = newimg(img.w, img.h, img.bits)
    quiet(f, scratch, x1, y1, x2, y2, p[4], 1)
    quiet(f, w.b[k], x1, y1, x2, y2, p[4], c)
    got = M.parse(scratch)
    need(got.bits == 24 or got.pal == one.pal, 'a shape changed the palette')
    need(all(v in (0, 1) for r in got.px for v in r), 'a shape of colour 1 painted others')
    w.take(k, {(x, y) for y in range(img.h) for x in range(img.w) if got.px[y][x]}, set(), c)


@op(5, 3)
def reflect(w, k, p):
    img = w.m[k]
    o = sorted(c08.REF)[p[4] % 10]
    if p[4] // 10 % 2:
        quiet(c08.WHOLE[o], w.b[k])
        w.m[k] = c08.apply(img, o, 0, 0, img.w - 1, img.h - 1)
    else:
        x1, y1, x2, y2 = within(img, *p[:4])
        quiet(c08.REGION[o], w.b[k], x1, y1, x2, y2)
        w.m[k] = c08.apply(img, o, x1, y1, x2, y2)


@op(4)
def invert(w, k, p):
    img = w.m[k]
    x1, y1, x2, y2 = within(img, *p[:4])
    quiet(b.invertregion, w.b[k], x1, y1, x2, y2)
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            img.px[y][x] ^= (1 << img.bits) - 1


@op(4, 2)
def copy(w, k, p):
    img = w.m[k]
    x1, y1, x2, y2 = within(img, *p[:4])
    buf, _ = quiet(b.copyrect, w.b[k], x1, y1, x2, y2)
    w.sel = w.sel[-2:] + [(buf, sub(img, x1, y1, x2, y2))]


@op(3, 3)
def paste(w, k, p):
    if not w.sel:
        return
    buf, part = w.sel[p[0] % len(w.sel)]
    part = part.copy()
    img = w.m[k]
    x, y = spot(img, p[1], p[2], 2)
    quiet(b.pasterect, w.b[k], buf, x, y)
    if part.bits == img.bits and img.inside(x, y) and img.inside(x + part.w - 1, y + part.h - 1):
        for j in range(part.h):
            img.px[y + j][x:x + part.w] = part.px[j]


@op(5)
def crop(w, k, p):
    img = w.m[k]
    x1, y1, x2, y2 = within(img, *p[:4])
    new, _ = quiet(b.crop, w.b[k], x1, y1, x2, y2)
    w.put(p[4], new, sub(img, x1, y1, x2, y2))


@op(1, 2)
def save(w, k, p):
    f = os.path.join(w.dir, 'f%d.bmp' % (p[0] % 3))
    quiet(b.saveBMP, f, w.b[k])
    w.files = [t for t in w.files if t[0] != f] + [(f, w.m[k].copy())]


@op(2, 2)
def load(w, k, p):
    if w.files:
        f, img = w.files[p[0] % len(w.files)]
        new, _ = quiet(b.loadBMP, f)
        w.put(p[1], new, img.copy())


@op(4)
def palette(w, k, p):
    img = w.m[k]
    if img.bits < 24:
        i = p[0] % (1 << img.bits)
        c = [p[1] & 255, p[2] & 255, p[3] & 255]
        b.setRGBpal(w.b[k], i, *c)
        img.pal[i] = c


@op(1)
def rotate_palette(w, k, p):
    img = w.m[k]
    quiet(b.palshift, w.b[k], p[0])
    if img.bits in (4, 8):
        i = p[0] % (1 << img.bits)
        img.pal = img.pal[i:] + img.pal[:i]


@op(2)
def share_palette(w, k, p):
    t = p[0] % len(w.b)
    if w.m[t].bits == w.m[k].bits < 24 and t != k:
        b.copyRGBpal(w.b[k], w.b[t])
        w.m[t].pal = [list(c) for c in w.m[k].pal]


@op(2)
def enlarge(w, k, p):
    img = w.m[k]
    n = 1 + p[0] % 3
    if img.w * n > 60 or img.h * n > 40:
        return
    new, _ = quiet(b.resizeNtimesbigger, w.b[k], n)
    w.put(p[1], new, blow(img, n).copy())


@op(1)
def upgrade(w, k, p):
    img = w.m[k]
    if img.bits < 24:
        new, _ = quiet(b.upgradeto24bitimage, w.b[k])
        px = [[(lambda c: c[0] << 16 | c[1] << 8 | c[2])(img.rgb(x, y)) for x in range(img.w)] for y in range(img.h)]
        w.put(p[0], new, M.Img(img.w, img.h, 24, px))


@op(3)
def look(w, k, p):
    """Reading changes nothing and shows the state."""
    img = w.m[k]
    x, y = p[0] % img.w, p[1] % img.h
    same(b.getxybit(w.b[k], x, y), img.px[y][x], f'pixel ({x},{y})')
    same(tuple(b.getRGBxybit(w.b[k], x, y)), tuple(img.rgb(x, y)), f'colour of ({x},{y})')
    if p[2] % 3 == 0:
        got, _ = quiet(b.colorhistogram, w.b[k])
        count = {}
        for r in img.px:
            for v in r:
                count[v] = count.get(v, 0) + 1
        same(sorted((c, n) for n, c in got), sorted(count.items()), 'histogram')


NAMES = [n for n, (_, _, t) in sorted(TAKES.items()) for _ in range(t)]
num = st.integers(0, 99) | st.integers(0, 4000)


@st.composite
def steps(draw):
    n = draw(st.sampled_from(NAMES))
    return [n, draw(st.integers(0, SLOTS - 1)), [draw(num) for _ in range(TAKES[n][1])]]


@st.composite
def histories(draw):
    n = draw(st.sampled_from([1, 8, 16, 24]))
    return {'start': [draw(M.images(maxw=40, maxh=24, big=False)) for _ in range(draw(st.sampled_from([2, 3, 1])))], 'ops': draw(st.lists(steps(), min_size=n, max_size=n + 7))}


@P.part(histories(), quick=700, rule='eight operations or more on two bitmaps or more')
def sequences(case):
    """After every operation every bitmap, the one worked on and the others, is exactly what the model says."""
    with tempfile.TemporaryDirectory(dir='.') as d:
        w = World(d)
        for i, c in enumerate(case['start']):
            img = M.from_case(c)
            w.put(i, M.to_bmp(img), img)
        used = set()
        for i, (n, k, p) in enumerate(case['ops']):
            k %= len(w.b)
            used.add(k)
            TAKES[n][0](w, k, p)
            for t, (bmp, img) in enumerate(zip(w.b, w.m)):
                M.expect(bmp, img, f'bitmap {t} after step {i} ({n} {p} of bitmap {k}) of {[s[0] for s in case["ops"][:i + 1]]}')
        return len(case['ops']) > 7 and len(used) > 1
