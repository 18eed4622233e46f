"""C20 edges, neighbours, colour regions, histograms, comparison, autocrop and colour reduction."""
import math, os
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, need, same, quiet, short
import pythonbmp.BITMAPlib as b

P = Prop('C20', ['which of several dissimilar neighbours of a pixel is named as its edge is left open',
                 'auto-cropping may keep one row and column beyond the last edge'])

IN, IN2, OUT = 'in.bmp', 'in2.bmp', 'out.bmp'


def save(img, name):
    with open(name, 'wb') as f:
        f.write(M.encode(img))


def load(name, what):
    need(os.path.isfile(name), '%s: nothing was saved', what)
    with open(name, 'rb') as f:
        return M.parse(f.read())


def clean():
    for n in (IN, IN2, OUT):
        if os.path.exists(n):
            os.remove(n)


def d2(p, q):
    return sum((u - v) ** 2 for u, v in zip(p, q))


@st.composite
def pics(draw, bits=M.BITS, maxw=14, maxh=10):
    img = draw(M.images(bits=bits, maxw=maxw, maxh=maxh, big=draw(st.integers(0, 3)) == 0, solid=True))
    return {'img': img, 't': draw(st.one_of(st.integers(0, 450), st.sampled_from([0, 1, 10, 100, 200])))}


def dissim(img, t):
    """Pixel -> set of its neighbours whose colour is further than t."""
    out = {}
    for y in range(img.h):
        for x in range(img.w):
            c = img.rgb(x, y)
            out[(x, y)] = {(x + i, y + j) for i in (-1, 0, 1) for j in (-1, 0, 1)
                           if (i or j) and img.inside(x + i, y + j) and d2(img.rgb(x + i, y + j), c) > t * t}
    return out


def check_edges(got, nb, what):
    for p in got:
        need(p in nb and nb[p], '%s: %s is named, it is like all its neighbors', what, p)
    for p, s in nb.items():
        need(not s or s & got, '%s: no neighbor of %s is named', what, p)


@P.part(pics(), quick=1500, rule='some but not all pixels are on an edge')
def edges(case):
    """The edge points are dissimilar neighbours, and every pixel that has one has one of them named."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    t = case['t']
    what = f'edges at {t} of {img.w}x{img.h} {img.bits}-bit'
    nb = dissim(img, t)
    v, _ = quiet(b.getimagedgevert, bmp, t)
    got = {tuple(p) for p in v}
    check_edges(got, nb, what)
    w, _ = quiet(lambda: [tuple(p) for p in b.iterimagedgevert(bmp, t)])
    same(set(w), got, what)
    M.expect(bmp, img, what + ' (reading)')
    return 0 < len(got) < img.w * img.h


@st.composite
def drawn(draw):
    c = draw(pics())
    c.update(pen=draw(st.integers(0, 3)), c=draw(M.color(c['img']['bits'])), only=draw(st.booleans()), file=draw(st.booleans()))
    return c


@P.part(drawn(), quick=1200, rule='some pixel is drawn')
def plotted_edges(case):
    """Plotted edges are round dots of the pen on the edge points."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    t, r, c = case['t'], case['pen'], case['c']
    v, _ = quiet(b.getimagedgevert, bmp, t)
    pts = {tuple(p) for p in v}
    quiet(b.plotimgedges, bmp, t, r, c)
    must, may = dots(img, pts, r)
    S.painted(bmp, img, must, may, c, f'edges at {t} with pen {r} on {img.w}x{img.h} {img.bits}-bit')
    return bool(pts)


def dots(img, pts, r):
    if r < 2:
        return {p for p in pts if img.inside(*p)}, set()
    return S.discs(img, pts, r)


@st.composite
def regions(draw):
    c = draw(drawn())
    c['x'], c['y'] = draw(st.integers(0, c['img']['w'] - 1)), draw(st.integers(0, c['img']['h'] - 1))
    c['rgb'] = draw(st.one_of(st.none(), st.lists(st.integers(0, 255), min_size=3, max_size=3)))
    return c


@P.part(regions(), quick=1500, rule='some but not all pixels are in the region')
def color_regions(case):
    """Exactly the pixels whose colour is closer than the threshold."""
    clean()
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    t, r, c = case['t'], case['pen'], case['c']
    rgb = case['rgb'] or list(img.rgb(case['x'], case['y']))
    want = {(x, y) for y in range(img.h) for x in range(img.w) if d2(img.rgb(x, y), rgb) < t * t}
    what = f'region of {rgb} within {t} of {img.w}x{img.h} {img.bits}-bit'
    v, _ = quiet(b.getimageregionbyRGB, bmp, rgb, t)
    same(sorted(tuple(p) for p in v), sorted(want), what)
    w, _ = quiet(lambda: [tuple(p) for p in b.iterimageregionvertbyRGB(bmp, rgb, t)])
    same(sorted(w), sorted(want), what)
    if case['file']:
        save(img, IN)
        quiet(b.imgregionbyRGB2file, IN, OUT, r, c, rgb, t, case['only'])
        base = img
        if case['only']:
            base = M.Img(img.w, img.h, img.bits, None, img.pal)
        must, may = dots(img, want, r)
        got = load(OUT, what)
        S.painted(M.to_bmp(got), base, must, may, c, what + f' drawn to a file with pen {r}')
    return 0 < len(want) < img.w * img.h


@P.part(pics(), quick=1200, rule='at least two different values')
def histograms(case):
    """Counts of every pixel value, most frequent first; every pixel once."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    h, _ = quiet(b.colorhistogram, bmp)
    cnt = {}
    for row in img.px:
        for v in row:
            cnt[v] = cnt.get(v, 0) + 1
    what = f'histogram of {img.w}x{img.h} {img.bits}-bit'
    same(sorted((v, n) for n, v in h), sorted(cnt.items()), what)
    need(all(p[0] >= q[0] for p, q in zip(h, h[1:])), '%s: not in descending order: %s', what, short(h))
    for fn, val in ((b.iterimagecolor, lambda x, y: img.px[y][x]), (b.iterimageRGB, img.rgb)):
        got, _ = quiet(lambda: [(tuple(p), c if isinstance(c, int) else tuple(c)) for p, c in fn(bmp, '', '', '')])
        same(sorted(got), sorted(((x, y), val(x, y)) for y in range(img.h) for x in range(img.w)), f'{fn.__name__} of {img.w}x{img.h} {img.bits}-bit')
    return len(cnt) > 1


@P.part(st.tuples(st.integers(256, 420), st.integers(256, 300), st.sampled_from(M.BITS), st.lists(st.tuples(st.integers(0, 250), st.integers(0, 250), st.integers(0, 255)), max_size=5)).map(list),
        quick=10, rule='more than 65535 pixels of one colour')
def large_histograms(case):
    """Counts do not saturate: a large picture that is nearly one colour."""
    w, h, bits, spots_ = case
    img = M.Img(w, h, bits, None, M.defaultpal(bits) if bits < 24 else None)
    for x, y, v in spots_:
        img.px[y][x] = M.mask(v, bits)
    hist, _ = quiet(b.colorhistogram, M.to_bmp(img))
    cnt = {}
    for row in img.px:
        for v in row:
            cnt[v] = cnt.get(v, 0) + 1
    same(sorted((v, n) for n, v in hist), sorted(cnt.items()), f'histogram of {w}x{h} {bits}-bit')
    need(hist[0][0] == max(cnt.values()), 'most frequent colour of %sx%s is not the first: %s', w, h, short(hist))
    return max(cnt.values()) > 65535


@st.composite
def spots(draw):
    img = draw(M.images(maxw=8, maxh=8, big=False))
    return {'img': img, 'x': draw(M.coord(img['w'], 0)), 'y': draw(M.coord(img['h'], 0))}


@P.part(spots(), quick=1000, rule='a corner or border pixel')
def neighbor_colors(case):
    img = M.from_case(case['img'])
    x, y = case['x'], case['y']
    got = b.getneighborcolorlist(M.to_bmp(img), [x, y])
    want = [img.rgb(x + i, y + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if img.inside(x + i, y + j)]
    same(sorted(tuple(c) for c in got), sorted(want), f'colors around ({x},{y}) in {img.w}x{img.h} {img.bits}-bit')
    return x in (0, img.w - 1) or y in (0, img.h - 1)


@st.composite
def pairs(draw):
    a = draw(M.images(maxw=20, maxh=10))
    c = dict(a)
    c['d'] = draw(M.hexes(1, 24))
    k = draw(st.sampled_from(['same', 'same', 'same', 'pal', 'size', 'bits']))
    if k == 'pal' and a['bits'] < 24:
        c['p'] = draw(M.hexes(1, 12))
    elif k == 'size':
        c['w'] += draw(st.integers(0, 1))
        c['h'] += draw(st.integers(0, 1))
    elif k == 'bits':
        c['bits'] = draw(st.sampled_from(M.BITS))
        c.pop('p', None)
    return {'a': a, 'c': c, 'and': draw(st.booleans())}


@P.part(pairs(), quick=1200, rule='the bitmaps are comparable and differ')
def comparisons(case):
    """The difference holds the exclusive-or of both images, the similar parts their and; other sizes or depths are refused."""
    clean()
    p, q = M.from_case(case['a']), M.from_case(case['c'])
    save(p, IN)
    save(q, IN2)
    fn = b.showsimilarparts if case['and'] else b.imagediff
    what = f'{fn.__name__} of {p.w}x{p.h} {p.bits}-bit and {q.w}x{q.h} {q.bits}-bit'
    _, out = quiet(fn, IN, IN2, OUT)
    M.expect(open(IN, 'rb').read(), p, what + ' (first input)')
    M.expect(open(IN2, 'rb').read(), q, what + ' (second input)')
    if (p.w, p.h, p.bits) != (q.w, q.h, q.bits):
        need(not os.path.exists(OUT), '%s: a file was saved', what)
        need('compare' in out.lower(), '%s: no message', what)
        return False
    want = p.copy()
    for y in range(p.h):
        for x in range(p.w):
            want.px[y][x] = p.px[y][x] & q.px[y][x] if case['and'] else p.px[y][x] ^ q.px[y][x]
    M.expect(M.to_bmp(load(OUT, what)), want, what)
    if p.bits < 24:
        need(p.pal == q.pal or 'palette' in out.lower(), '%s: no word of the different palettes', what)
    return p.px != q.px


@st.composite
def framed(draw):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(st.integers(1, 16)), draw(st.integers(1, 12))
    x1, y1 = draw(st.integers(0, w - 1)), draw(st.integers(0, h - 1))
    x2, y2 = draw(st.integers(x1, w - 1)), draw(st.integers(y1, h - 1))
    return {'w': w, 'h': h, 'bits': bits, 'r': [x1, y1, x2, y2], 'fg': draw(M.color(bits)), 'bg': draw(M.color(bits)), 't': draw(st.sampled_from([0, 0, 5, 60]))}


@P.part(framed(), quick=1200, rule='the image has edges')
def autocrop(case):
    """The saved part holds every edge point of the image, and one row or column more at most; an image without edges is kept whole."""
    clean()
    bits = case['bits']
    img = M.Img(case['w'], case['h'], bits, None, M.defaultpal(bits) if bits < 24 else None)
    x1, y1, x2, y2 = case['r']
    for y in range(img.h):
        for x in range(img.w):
            img.px[y][x] = case['fg'] if x1 <= x <= x2 and y1 <= y <= y2 else case['bg']
    save(img, IN)
    what = f'autocrop at {case["t"]} of a {(x1, y1, x2, y2)} block {case["fg"]:#x} on {case["bg"]:#x} in {img.w}x{img.h} {bits}-bit'
    nb = dissim(img, case['t'])
    edge = {p for p, s in nb.items() if s}
    quiet(b.autocropimg2file, IN, OUT, case['t'])
    got = load(OUT, what)
    same((got.bits, got.pal), (img.bits, img.pal), what + ': depth or palette')
    if not edge:
        M.expect(M.to_bmp(got), img, what + ' (nothing to crop)')
        return False
    # the crop is bounded by the named edge points; both colours touch along the block's border, so every part of it stays
    v, _ = quiet(b.getimagedgevert, M.to_bmp(img), case['t'])
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    ok = False
    for w in (max(xs) - min(xs) + 1, max(xs) - min(xs) + 2):
        for h in (max(ys) - min(ys) + 1, max(ys) - min(ys) + 2):
            if (got.w, got.h) == (min(w, img.w - min(xs)), min(h, img.h - min(ys))):
                ok = True
    need(ok, '%s: saved %sx%s, edges span %s..%s x %s..%s', what, got.w, got.h, min(xs), max(xs), min(ys), max(ys))
    for y in range(got.h):
        same(got.px[y], img.px[min(ys) + y][min(xs):min(xs) + got.w], f'{what}: row {y}')
    return True


@st.composite
def reduce(draw):
    img = draw(M.images(bits=(24,) * 8 + (8, 4, 1), maxw=10, maxh=8, big=False, solid=True))
    return {'img': img, 'to': draw(st.sampled_from([8, 4, 4, 1])), 't': draw(st.sampled_from([0, 1, 20, 60, 120, 300])), 'mono': draw(st.booleans()),
            'f': [draw(st.integers(0, 20)) / 20 for _ in range(3)]}


@P.part(reduce(), quick=1000, rule='a 24-bit image with more than one color')
def reduction(case):
    """A reduced image has the size asked for and every pixel shows a nearest colour of its palette; the palette is the monochrome one or black and frequent colours far enough apart."""
    clean()
    img = M.from_case(case['img'])
    save(img, IN)
    to, t, f = case['to'], case['t'], case['f']
    what = f'{img.w}x{img.h} {img.bits}-bit to {to} bits, {"mono " + str(f) if case["mono"] else "threshold " + str(t)}'
    _, out = quiet(b.reduce24bitimagebits, IN, OUT, to, t, case['mono'], f)
    if img.bits != 24:
        need(not os.path.exists(OUT) and '24' in out, '%s: not refused', what)
        return False
    got = load(OUT, what)
    same((got.w, got.h, got.bits), (img.w, img.h, to), what + ': geometry')
    cols = {}
    for row in img.px:
        for v in row:
            cols[v] = cols.get(v, 0) + 1
    if to == 1:
        for y in range(img.h):
            for x in range(img.w):
                if img.px[y][x] == 0:
                    need(got.px[y][x] == 0, '%s: black (%s,%s) became white', what, x, y)
        return len(cols) > 1
    pal = [tuple(c) for c in got.pal]
    if case['mono']:
        for c in pal:
            pass
        n = len(pal)
        used = pal
    else:
        # the chosen colors: black, then by falling frequency those at least t from every chosen one
        used = [(0, 0, 0)]
        freq = sorted(cols.items(), key=lambda e: (-e[1], -e[0]))
        for v, _ in freq:
            c = (v >> 16, (v >> 8) & 255, v & 255)
            if all(d2(c, q) >= t * t for q in used):
                used.append(c)
            if len(used) == 1 << to:
                break
        need(set(used) <= set(pal), '%s: palette lacks %s', what, short(sorted(set(used) - set(pal))))
    for y in range(img.h):
        for x in range(img.w):
            c = img.rgb(x, y)
            ok = {tuple(used[i]) for i in M.nearest_any(c, used)}
            need(tuple(got.rgb(x, y)) in ok, '%s: (%s,%s) %s became %s, nearest are %s', what, x, y, c, got.rgb(x, y), short(sorted(ok)))
    return len(cols) > 1
