"""C03 pixel reads and writes against the grid model."""
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C03')


beyond = st.integers(0, 0xFFFFFF) | st.integers(0, 23).map(lambda k: 1 << k) | st.integers(0, 255).map(lambda k: k << 16)


@st.composite
def writes(draw):
    img = draw(M.images(maxw=20, maxh=10))
    n = draw(st.integers(1, 10))
    ops = []
    for _ in range(n):
        x, y = draw(M.coord(img['w'])), draw(M.coord(img['h']))
        ops.append([draw(st.sampled_from(['int', 'vec', 'rvec'])), x, y, draw(M.rare(M.color(img['bits']), beyond, 8)),
                    draw(st.sampled_from([0, 0.25, -0.25, 0.49, -0.49]))])
    return {'img': img, 'ops': ops}


@P.part(writes(), quick=900, rule='a write inside the bitmap, and a later one')
def plot_then_read(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    hits = 0
    for kind, x, y, c, frac in case['ops']:
        if kind == 'int':
            b.plotxybit(bmp, x, y, c)
        elif kind == 'vec':
            b.intplotvecxypoint(bmp, [x, y], c)
        else:
            b.plotvecxypoint(bmp, [x + frac, y - frac], c)
        c = M.mask(c, img.bits)
        img.set(x, y, c)
        hits += img.inside(x, y)
        same(b.getxybit(bmp, x, y), c if img.inside(x, y) else -1, f'read back of ({x},{y})')
        M.expect(bmp, img, f'after writing {c} at ({x},{y})')
    return hits >= 2


@st.composite
def reads(draw):
    img = draw(M.images(maxw=24, maxh=12))
    pts = draw(st.lists(st.tuples(M.coord(img['w']), M.coord(img['h'])), min_size=1, max_size=8))
    return {'img': img, 'pts': pts}


@P.part(reads(), quick=600, rule='a point inside the bitmap')
def read_matches_file_format(case):
    """Reads agree with an independent decoding of the buffer."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    for x, y in case['pts']:
        ins = img.inside(x, y)
        want = img.px[y][x] if ins else -1
        same(b.getxybit(bmp, x, y), want, f'pixel ({x},{y})')
        same(b.getxybitvec(bmp, [x, y]), want, f'pixel [{x},{y}]')
        rgb = list(img.rgb(x, y)) if ins else []
        same(list(b.getRGBxybit(bmp, x, y)), rgb, f'color of pixel ({x},{y})')
        same(list(b.getRGBxybitvec(bmp, [x, y])), rgb, f'color of pixel [{x},{y}]')
    M.expect(bmp, img, 'reading changed the bitmap')
    return any(img.inside(x, y) for x, y in case['pts'])


def nearest(rgb, pal):
    """Acceptable palette indices for a colour: its first exact match, else a nearest entry."""
    rgb = list(rgb)
    if rgb in pal:
        return [pal.index(rgb)]
    return sorted(M.nearest_any(rgb, pal))


@st.composite
def rgbwrites(draw):
    img = draw(M.images(maxw=12, maxh=8, big=False))
    x, y = draw(M.coord(img['w'], 3)), draw(M.coord(img['h'], 3))
    exact = draw(st.one_of(st.none(), st.integers(0, (1 << img['bits']) - 1 if img['bits'] < 24 else 0)))
    rgb = draw(st.one_of(*[st.lists(st.integers(0, 255), min_size=3, max_size=3)] * 4, st.lists(st.integers(0, 70), min_size=3, max_size=3)))
    if exact is None and img['bits'] < 24 and draw(st.booleans()):     # a colour close to several entries
        p = M.from_case(dict(img, w=1, h=1)).pal
        rgb = [min(255, max(0, v + draw(st.integers(-2, 2)))) for v in p[draw(st.integers(0, len(p) - 1))]]
    return {'img': img, 'x': x, 'y': y, 'rgb': rgb, 'exact': exact, 'vec': draw(st.booleans())}


@P.part(rgbwrites(), quick=600, rule='a point inside the bitmap')
def plot_rgb(case):
    """Writing an RGB colour stores it (24 bit), or its exact/nearest palette entry, in that pixel only."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, rgb = case['x'], case['y'], list(case['rgb'])
    if img.bits < 24 and case['exact'] is not None:
        rgb = list(img.pal[case['exact']])
    if case['vec']:
        b.plotRGBxybitvec(bmp, [x, y], rgb)
    else:
        b.plotRGBxybit(bmp, x, y, rgb)
    ins = img.inside(x, y)
    if ins:
        if img.bits == 24:
            img.px[y][x] = rgb[0] << 16 | rgb[1] << 8 | rgb[2]
        else:
            got = M.parse(bmp).px[y][x]
            ok = nearest(rgb, img.pal)
            need(got in ok, 'color %s was stored as palette entry %s %s, nearest is %s %s', rgb, got, img.pal[got], ok, img.pal[ok[0]])
            img.px[y][x] = got
    M.expect(bmp, img, f'after writing {rgb} at ({x},{y})')
    return ins


@st.composite
def swaps(draw):
    img = draw(M.images(maxw=16, maxh=10))
    p = [draw(M.coord(img['w'], 0)), draw(M.coord(img['h'], 0))]
    q = [draw(M.coord(img['w'], 0)), draw(M.coord(img['h'], 0))]
    return {'img': img, 'p': p, 'q': q}


@P.part(swaps(), quick=300, rule='two pixels of different color')
def swap(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    (x1, y1), (x2, y2) = case['p'], case['q']
    b.swapcolors(bmp, [x1, y1], [x2, y2])
    nt = img.px[y1][x1] != img.px[y2][x2]
    img.px[y1][x1], img.px[y2][x2] = img.px[y2][x2], img.px[y1][x1]
    M.expect(bmp, img, 'after swapping two pixels')
    return nt


@st.composite
def blocks(draw):
    img = draw(M.images(maxw=16, maxh=8))
    size = M.rowbytes(img['w'], img['bits']) * img['h']
    off = draw(st.one_of(st.integers(-4, size + 4), st.integers(0, size)))
    return {'img': img, 'off': off, 'n': draw(st.one_of(st.integers(0, size + 6), st.integers(0, max(0, size - max(off, 0))))), 'buf': draw(M.hexes(0, 30)), 'rest': draw(st.booleans())}


@P.part(blocks(), quick=500, rule='block wholly inside the image bytes')
def block_transfer(case):
    """Raw block reads/writes touch exactly the addressed bytes, or nothing when they do not fit."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    hd = M.HDR[img.bits]
    size = len(keep) - hd
    off, n = case['off'], case['n']
    r, _ = quiet(b.BMPbitBLTget, bmp, off, n)
    fits = off >= 0 and n > 0 and off + n <= size
    same(bytes(r), keep[hd + off:hd + off + n] if fits else b'', f'{n} image bytes at offset {off}')
    same(bytes(bmp), keep, 'a block read changed the bitmap')
    buf = bytes.fromhex(case['buf'])
    if case['rest'] and 0 <= off < size:
        buf = (buf * size)[:size - off]
    quiet(b.BMPbitBLTput, bmp, off, array('B', buf))
    want = keep
    if off >= 0 and off + len(buf) <= size:
        want = keep[:hd + off] + buf + keep[hd + off + len(buf):]
    same(bytes(bmp), want, f'bitmap after storing {len(buf)} bytes at offset {off} of {size}')
    return fits


@st.composite
def slices(draw):
    img = draw(M.images(maxw=16, maxh=10, bits=(8, 24)))
    return {'img': img, 'x': draw(M.coord(img['w'], 2)), 'y1': draw(M.coord(img['h'], 0)), 'y2': draw(M.coord(img['h'], 4))}


@P.part(slices(), quick=400, rule='column inside the bitmap, more than one row')
def column_read(case):
    """A vertical slice lists the pixels of the column, bottom row first, clipped to the bitmap."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x = case['x']
    r, _ = quiet(b.vertBMPbitBLTget, bmp, x, case['y1'], case['y2'])
    if not 0 <= x < img.w:
        need(r is None or len(r) == 0, 'column %s of a %s wide bitmap returned %s', x, img.w, r)
        return False
    lo, hi = sorted((case['y1'], case['y2']))
    lo, hi = max(lo, 0), min(hi, img.h - 1)
    col = [img.px[y][x] for y in range(hi, lo - 1, -1)]
    if img.bits == 24:
        want = [v for c in col for v in (c & 255, c >> 8 & 255, c >> 16)]
    else:
        want = col
    same(list(r), want, f'column {x} rows {lo}..{hi}')
    M.expect(bmp, img, 'reading a column changed the bitmap')
    return hi > lo


def _shapes():
    from pythonbmp.fonts import font8x8
    t = {}
    add = t.__setitem__
    for n in ('line', 'rectangle', 'filledrect'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, p[0], p[1], p[2], p[3], c))
    add('hline', lambda m, c, p: b.line(m, p[0], p[1], p[2], p[1], c))
    add('vline', lambda m, c, p: b.line(m, p[0], p[1], p[0], p[3], c))
    add('horiline', lambda m, c, p: b.horiline(m, p[1], p[0], p[2], c))
    add('vertline', lambda m, c, p: b.vertline(m, p[0], p[1], p[3], c))
    for n in ('linevec', 'intlinevec'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, p[:2], p[2:4], c))
    for n in ('circle', 'filledcircle', 'squircle'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, p[0], p[1], p[4], c))
    add('circlevec', lambda m, c, p: b.circlevec(m, p[:2], p[4], c))
    for n in ('ellipse', 'filledellipse'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, p[0], p[1], p[4], p[5], c))
    add('thickcircle', lambda m, c, p: b.thickcircle(m, p[0], p[1], p[4], p[5] % 3 + 1, c))
    add('thickellipserot', lambda m, c, p: b.thickellipserot(m, p[0], p[1], p[4], p[5], p[2] * 9, 2, c))
    add('drawarc', lambda m, c, p: b.drawarc(m, p[0], p[1], p[4] + 3, p[2], p[2] + p[3] * 9, c, True, c, p[5] % 2 == 0))
    add('drawvec', lambda m, c, p: b.drawvec(m, p[:2], p[2:4], 3, c))
    add('thickroundline', lambda m, c, p: b.thickroundline(m, p[:2], p[2:4], p[5] % 3 + 1, c))
    add('roundpen', lambda m, c, p: b.roundpen(m, p[:2], p[5], c))
    tri = lambda p: [p[:2], p[2:4], [p[5], p[0]]]
    add('plotlines', lambda m, c, p: b.plotlines(m, tri(p), c, p[5] % 3 + 1))
    for n in ('plotpoly', 'plotpolyfill'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, tri(p), c))
    add('plotpolylist', lambda m, c, p: b.plotpolylist(m, [tri(p)], c))
    for n in ('thickplotpoly', 'plotxypointlist', 'beziercurve'):
        add(n, lambda m, c, p, f=getattr(b, n): f(m, tri(p), p[5] % 3 + 1, c))
    add('bspline', lambda m, c, p: b.bspline(m, tri(p) + [[p[3], p[1]]], p[5] % 2 + 1, c, True, True))
    add('filledparallelogram', lambda m, c, p: b.filledparallelogram(m, [8, 8], [8 + p[4], 8], [8, 8 + p[5]], c))
    add('xygrid', lambda m, c, p: b.xygrid(m, 1, 2, 18, 19, [p[4] + 1, p[5] + 1], c))
    add('xygridvec', lambda m, c, p: b.xygridvec(m, [1, 2], [18, 19], [p[4] + 1, p[5] + 1], c))
    add('horilinevert', lambda m, c, p: b.horilinevert(m, tri(p), 3, 1, c))
    add('vertlinevert', lambda m, c, p: b.vertlinevert(m, tri(p), 3, 1, c))
    add('numbervert', lambda m, c, p: b.numbervert(m, tri(p), 1, 1, 1, p[4], 1, 0, 1, c, font8x8, False, False, False))
    from .c16 import PATS, STR
    for k in PATS:
        add(f'pattern {k}', lambda m, c, p, f=PATS[k]: f(m, p[0], p[1], [0xa5, p[2], p[3] * 9], p[5] % 3 + 1, p[4] % 2, c))
    for k, v in enumerate(STR):
        add(f'string {k}', lambda m, c, p, f=v[0]: f(m, p[0], p[1], 'A1', p[5] % 2 + 1, 0, 1, c, font8x8))
    add('plotcircinsqr', lambda m, c, p: b.plotcircinsqr(m, p[0], p[1], p[4] + 1, c))
    add('plotxybit', lambda m, c, p: b.plotxybit(m, p[0], p[1], c))
    add('plotvecxypoint', lambda m, c, p: b.plotvecxypoint(m, p[:2], c))
    return t


SHAPES = _shapes()
k19 = st.integers(0, 19)


@P.part([st.tuples(st.just(n), st.sampled_from([1, 1, 4, 4, 8, 8, 24]), st.tuples(k19, k19, k19, k19, st.integers(1, 9), st.integers(1, 9)).map(list),
                   st.one_of(st.integers(0, 0xffffff), st.integers(0, 15).map(lambda k: 1 << k), st.integers(0, 600))).map(list) for n in sorted(SHAPES)],
        quick=1400, rule='the color has to be reduced and something is drawn')
def reduced_colors(case):
    """Every shape, pattern and text in a color beyond the depth is drawn in the color reduced to the depth."""
    n, bits, p, c = case
    if bits == 1:
        c |= 1      # even colors: some functions take the lowest bit, some any bit
    got = []
    blank = bytes(b.newBMP(20, 20, bits))
    for v in (c, M.mask(c, bits)):
        bmp = array('B', blank)
        quiet(SHAPES[n], bmp, v, [t for t in p])
        got.append(bytes(bmp))
    need(got[0] == got[1], '%s %s in color %#x on %s bits differs from the same in color %#x', n, p, c, bits, M.mask(c, bits))
    img = M.parse(array('B', got[0]))
    used = {v for r in img.px for v in r}
    need(used <= {0, M.mask(c, bits)}, '%s %s in color %#x on %s bits paints %s', n, p, c, bits, [hex(v) for v in used])
    return c != M.mask(c, bits) and got[1] != blank
