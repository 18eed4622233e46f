"""Independent model of the bitmap: a grid of pixel values, a palette, and a strict decoder of the file format."""
import json, os, struct
from array import array
from hypothesis import strategies as st
from .core import need, Violation

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'stdpal.json')) as _f:
    _STDPAL = json.load(_f)     # the documented default palettes, frozen from the documentation of the pinned commit

HDR = {1: 62, 4: 118, 8: 1078, 24: 54}
BITS = (1, 4, 8, 24)


def rowbytes(w, bits):
    return (w * bits + 31) // 32 * 4


class Img:
    __slots__ = ('w', 'h', 'bits', 'px', 'pal', 'near')

    def __init__(self, w, h, bits, px=None, pal=None):
        self.w, self.h, self.bits = w, h, bits
        self.px = px if px is not None else [[0] * w for _ in range(h)]
        self.pal = pal
        self.near = {}

    def copy(self):
        return Img(self.w, self.h, self.bits, [r[:] for r in self.px], None if self.pal is None else [list(c) for c in self.pal])

    def inside(self, x, y):
        return 0 <= x < self.w and 0 <= y < self.h

    def set(self, x, y, c):
        if self.inside(x, y):
            self.px[y][x] = mask(c, self.bits)

    def rgb(self, x, y):
        v = self.px[y][x]
        if self.bits == 24:
            return ((v >> 16) & 255, (v >> 8) & 255, v & 255)
        return tuple(self.pal[v])


def mask(c, bits):
    if bits == 1:
        return 1 if c else 0
    return c & ((1 << bits) - 1)


def parse(buf):
    """Strict reading of a BMP byte string produced by the library -> Img; raises Violation when it is not well formed."""
    b = bytes(buf)
    need(len(b) >= 54, 'bitmap shorter than its header: %d bytes', len(b))
    need(b[:2] == b'BM', 'bad magic %r', b[:2])
    fsize, _, off, ihs, w, h = struct.unpack_from('<IIIIii', b, 2)
    bits = struct.unpack_from('<H', b, 28)[0]
    comp = struct.unpack_from('<I', b, 30)[0]
    need(bits in HDR, 'bit depth field is %s', bits)
    need(ihs == 40, 'info header size field is %s', ihs)
    need(comp == 0, 'compression field is %s', comp)
    need(off == HDR[bits], 'pixel data offset field is %s for %s bit', off, bits)
    need(w > 0 and h > 0, 'dimension fields are %s x %s', w, h)
    rb = rowbytes(w, bits)
    need(fsize == off + rb * h, 'size field is %s, a %sx%s %s-bit bitmap has %s bytes', fsize, w, h, bits, off + rb * h)
    need(len(b) == fsize, 'the buffer holds %s bytes, its size field says %s', len(b), fsize)
    px = []
    for y in range(h):
        row = b[off + (h - 1 - y) * rb: off + (h - y) * rb]
        if bits == 24:
            px.append([row[3 * x] | row[3 * x + 1] << 8 | row[3 * x + 2] << 16 for x in range(w)])
        elif bits == 8:
            px.append(list(row[:w]))
        elif bits == 4:
            px.append([(row[x >> 1] >> (0 if x & 1 else 4)) & 15 for x in range(w)])
        else:
            px.append([(row[x >> 3] >> (7 - (x & 7))) & 1 for x in range(w)])
    pal = None
    if bits < 24:
        pal = [[b[54 + 4 * i + 2], b[54 + 4 * i + 1], b[54 + 4 * i]] for i in range(1 << bits)]
    return Img(w, h, bits, px, pal)


def encode_rows(img):
    rb = rowbytes(img.w, img.bits)
    out = bytearray()
    for y in range(img.h - 1, -1, -1):
        row = bytearray(rb)
        for x, v in enumerate(img.px[y]):
            if img.bits == 24:
                row[3 * x:3 * x + 3] = bytes((v & 255, v >> 8 & 255, v >> 16 & 255))
            elif img.bits == 8:
                row[x] = v
            elif img.bits == 4:
                row[x >> 1] |= v << (0 if x & 1 else 4)
            else:
                row[x >> 3] |= v << (7 - (x & 7))
        out += row
    return bytes(out)


def encode(img):
    """Bytes of a standard BMP file for img (written independently of the library)."""
    off = HDR[img.bits]
    rows = encode_rows(img)
    hd = bytearray(off)
    hd[:2] = b'BM'
    struct.pack_into('<IIIIii', hd, 2, off + len(rows), 0, off, 40, img.w, img.h)
    struct.pack_into('<H', hd, 28, img.bits)
    if img.bits < 24:
        for i, (r, g, b) in enumerate(img.pal):
            hd[54 + 4 * i: 57 + 4 * i] = bytes((b, g, r))
    return bytes(hd) + rows


def content(data, k):
    L = len(data)
    return (data[k % L] + 37 * (k // L) + 11 * (k >> 8)) & 255


def from_case(c):
    """Image case {'w','h','bits','d'[,'p']} -> Img with deterministic content."""
    d = bytes.fromhex(c['d'])
    w, h, bits = c['w'], c['h'], c['bits']
    img = Img(w, h, bits)
    k = 0
    solid = c.get('solid')
    for y in range(h):
        row = img.px[y]
        for x in range(w):
            if solid:
                # few distinct colours, large areas
                v = d[(x // 3 + (y // 2) * 5) % len(d)]
                row[x] = mask3(v) if bits == 24 else mask(v if bits > 1 else v & 1, bits)
            elif bits == 24:
                row[x] = content(d, k) | content(d, k + 1) << 8 | content(d, k + 2) << 16
                if c.get('pk') == 'near':       # all pixels within a few levels of one colour
                    row[x] = sum(min(255, max(0, d[j % len(d)] + ((row[x] >> 8 * j & 255) * 7 >> 8) - 3)) << 8 * j for j in range(3))
                k += 3
            elif bits == 1:
                v = content(d, k)
                row[x] = (v ^ v >> 3 ^ v >> 5) & 1
                k += 1
            else:
                v = content(d, k)
                row[x] = v if bits == 8 else (v ^ v >> 4) & 15
                k += 1
    if bits < 24:
        p = c.get('p')
        n = 1 << bits
        if p:
            pd = bytes.fromhex(p)
            img.pal = [[content(pd, 3 * i), content(pd, 3 * i + 1), content(pd, 3 * i + 2)] for i in range(n)]
            if c.get('pk') == 'near':       # all entries within a few levels of one colour
                img.pal = [[min(255, max(0, pd[j % len(pd)] + (q[j] * 7 >> 8) - 3)) for j in range(3)] for q in img.pal]
            elif c.get('pk') == 'grey':
                img.pal = [[q[0]] * 3 for q in img.pal]
            elif c.get('pk') == 'blank':    # the last quarter, half or three quarters are black
                img.pal = [q if i < n * (1 + pd[0] % 3) // 4 else [0, 0, 0] for i, q in enumerate(img.pal)]
            elif c.get('pk') == 'few':      # the same three colours over and over
                img.pal = [img.pal[i % 3 % n] for i in range(n)]
        else:
            img.pal = defaultpal(bits)
    return img


def mask3(v):
    return v | (v * 7 & 255) << 8 | (v * 29 & 255) << 16


def defaultpal(bits):
    return [list(c) for c in _STDPAL[str(bits)]]


def to_bmp(img):
    return array('B', encode(img))


def hexes(lo=1, hi=24):
    return st.binary(min_size=lo, max_size=hi).map(lambda x: x.hex())


# ---- strategies ---------------------------------------------------------

def dims(maxw=20, maxh=14, big=True):
    small = st.tuples(st.integers(1, maxw), st.integers(1, maxh))
    if not big:
        return small
    kinds = {0: st.tuples(st.integers(250, 280), st.integers(250, 280))}
    for k in range(1, 5):
        kinds[k] = st.tuples(st.integers(60, 140), st.integers(50, 140))
    for k in range(5, 12):
        kinds[k] = st.tuples(st.integers(250, 300), st.integers(1, 3))
        kinds[k + 7] = st.tuples(st.integers(1, 4), st.integers(250, 300))
    kinds[19] = st.tuples(st.integers(480, 1100), st.integers(1, 2))
    kinds[20] = st.tuples(st.integers(1, 3), st.integers(480, 1100))
    return st.integers(0, 99).flatmap(lambda k: kinds.get(99 - k, small))


def rare(usual, other, n=30):
    """usual, one time in n other."""
    return st.integers(0, n - 1).flatmap(lambda k: other if k == n - 1 else usual)


def size(lo, hi, top=290, n=40):
    return rare(st.integers(lo, hi), st.integers(hi, top), n)


def radius(lo, hi, top=300):
    """Mostly lo..hi, now and then well beyond."""
    return st.integers(0, 29).flatmap(lambda k: st.integers(lo, hi) if k < 28 else st.one_of(st.integers(hi, top), st.sampled_from([v for v in (63, 64, 90, 91, 126, 127, 128, 129, 180, 181, 182, 254, 255, 256, 257) if v <= top])))


@st.composite
def images(draw, bits=BITS, maxw=20, maxh=14, minw=1, minh=1, big=True, pal=True, solid=False):
    b = draw(st.sampled_from(list(bits)))
    w, h = draw(dims(maxw, maxh, big))
    c = {'w': max(w, minw), 'h': max(h, minh), 'bits': b, 'd': draw(hexes(1, 24))}
    if pal and b < 24 and draw(st.booleans()):
        c['p'] = draw(hexes(1, 12))
        k = draw(st.sampled_from(['', '', '', '', '', 'near', 'grey', 'blank', 'few']))
        if k:
            c['pk'] = k
    elif b == 24 and draw(st.integers(0, 5)) == 0:
        c['pk'] = 'near'
    if solid and draw(st.booleans()):
        c['solid'] = 1
    return c


def coord(n, pad=6):
    """A coordinate biased to the edges of 0..n-1, reaching `pad` outside on both sides (pad=0: inside)."""
    opts = [st.integers(-pad, n - 1 + pad), st.integers(0, n - 1)]
    edge = [0, n - 1] + ([-1, n] if pad else [])
    opts.append(st.sampled_from(edge))
    return st.one_of(*opts)


def color(bits):
    return st.integers(0, (1 << bits) - 1)


def wide(bits):
    """A colour, at 4 and 8 bits now and then one beyond the depth (drawn reduced)."""
    return rare(color(bits), st.integers(1 << bits, 0xFFFFFF), 12) if bits in (4, 8) else color(bits)


def diff(a, b, limit=6):
    """Human-readable differences of two Img's pixels."""
    if (a.w, a.h, a.bits) != (b.w, b.h, b.bits):
        return f'geometry {a.w}x{a.h}x{a.bits} vs {b.w}x{b.h}x{b.bits}'
    out = []
    for y in range(a.h):
        if a.px[y] != b.px[y]:
            for x in range(a.w):
                if a.px[y][x] != b.px[y][x]:
                    out.append(f'({x},{y}): got {a.px[y][x]:#x}, expected {b.px[y][x]:#x}')
    return f'{len(out)} pixels differ: ' + '; '.join(out[:limit])


def expect(bmp, want, what, pal=True):
    """The library bitmap decodes to exactly the model image `want`."""
    got = parse(bmp)
    if (got.w, got.h, got.bits) != (want.w, want.h, want.bits) or got.px != want.px:
        raise Violation(f'{what}: {diff(got, want)}')
    if pal and want.bits < 24 and got.pal != want.pal:
        k = [i for i in range(len(want.pal)) if got.pal[i] != want.pal[i]]
        raise Violation(f'{what}: palette entry {k[0]} is {got.pal[k[0]]}, expected {list(want.pal[k[0]])} ({len(k)} differ)')
    return got


def changed(a, b):
    """Set of pixels where two images differ."""
    return {(x, y) for y in range(a.h) for x in range(a.w) if a.px[y][x] != b.px[y][x]}


def ink(img, bg=0):
    return {(x, y) for y in range(img.h) for x in range(img.w) if img.px[y][x] != bg}


def nearest_any(rgb, pal):
    """Palette indices acceptable for a colour where ties are left open."""
    d = [sum((u - v) ** 2 for u, v in zip(rgb, p)) for p in pal]
    return {i for i, v in enumerate(d) if v == min(d)}


def colour_ok(img, v, rgb, tol=2.001):
    """Stored value v is an acceptable rendering of the (float) colour rgb: within tol per channel, or for palettes
    an entry nearest to a colour within tol of it."""
    if img.bits == 24:
        g = ((v >> 16) & 255, (v >> 8) & 255, v & 255)
        return all(abs(a - max(0, min(255, b))) <= tol for a, b in zip(g, rgb))
    key = (v, tuple(rgb), tol)
    if key not in img.near:
        img.near[key] = _near(img, v, rgb, tol)
    return img.near[key]


def _near(img, v, rgb, tol):
    lo = [max(0.0, min(255.0, c - tol)) for c in rgb]
    hi = [max(0.0, min(255.0, c + tol)) for c in rgb]
    dist = lambda p, q: sum((a - b) ** 2 for a, b in zip(p, q)) ** 0.5
    mid = [max(0.0, min(255.0, c)) for c in rgb]
    slack = 2 * dist(lo, hi)
    p = img.pal[v]
    best = min(dist(mid, q) for q in img.pal)
    return dist(mid, p) <= best + slack + 1e-9
