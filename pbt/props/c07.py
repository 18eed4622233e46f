"""C07 circles and ellipses."""
import math
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
from .c14 import RAMP
import pythonbmp.primitives2D as p2

P = Prop('C07', ['4-bit horizontal runs: known finding KF1 (last pixel) is allowed for, and only that pixel'])


@st.composite
def circ(draw, maxr=18, minr=0, far=True, bits=M.BITS):
    img = draw(M.images(bits=bits, maxw=36, maxh=26))
    w, h = img['w'], img['h']
    r = draw(M.radius(minr, maxr))
    k = draw(st.sampled_from(['near', 'near', 'near', 'edge', 'far'] if far else ['near', 'edge']))
    if k == 'near':
        x, y = draw(M.coord(w, 3)), draw(M.coord(h, 3))
    elif k == 'edge':
        x, y = draw(st.sampled_from([r, w - 1 - r, -r, w - 1 + r, r - 1, w - r, -r - 1, w + r])), \
            draw(st.sampled_from([r, h - 1 - r, -r, h - 1 + r, r - 1, h - r, -r - 1, h + r]))
    else:
        x = draw(st.sampled_from([-2000, -60, -r - 1, w + r, w + 80, 3000]))
        y = draw(M.coord(h, 2 * r + 2))
        if draw(st.booleans()):
            x, y = draw(M.coord(w, 2)), draw(st.sampled_from([-2000, -r - 1, h + r, 3000]))
    return {'img': img, 'x': x, 'y': y, 'r': r, 'c': draw(M.wide(img['bits'])), 'k': draw(st.integers(0, 2))}


@P.part(circ(), quick=1500, rule='at least four pixels of the disc are visible')
def filled_circles(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r, c = case['x'], case['y'], case['r'], case['c']
    if case['k'] == 0:
        b.filledcircle(bmp, x, y, r, c)
    elif case['k'] == 1:
        b.circle(bmp, x, y, r, c, True)
    else:
        b.circlevec(bmp, [x + 0.3, y - 0.2], r, c, True)
    must, may = S.runs(img, S.disc_runs(x, y, r))
    S.painted(bmp, img, must, may, c, f'filled circle ({x},{y}) r={r} on {img.w}x{img.h} {img.bits}-bit')
    return len(must) > 3


@P.part(circ(), quick=1500, rule='at least four pixels of the outline are visible')
def outlined_circles(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r, c = case['x'], case['y'], case['r'], case['c']
    if case['k'] == 0:
        b.circle(bmp, x, y, r, c)
    elif case['k'] == 1:
        b.circle(bmp, x, y, r, c, False)
    else:
        b.circlevec(bmp, [x - 0.4, y + 0.4], r, c)
    must = S.clip(S.ring(x, y, r), img)
    S.painted(bmp, img, must, set(), c, f'circle ({x},{y}) r={r} on {img.w}x{img.h} {img.bits}-bit')
    return len(must) > 3


@st.composite
def wide(draw):
    """A large circle or ellipse that just fits into a bitmap, or just does not."""
    a = draw(M.rare(st.one_of(st.integers(40, 170), st.sampled_from([63, 64, 91, 127, 128, 129, 135, 150])), st.integers(171, 320), 8))
    e = a if draw(st.integers(0, 2)) else draw(st.integers(40, 150))
    lo, hi, up, dn = (draw(st.sampled_from([0, 0, 1, 2, 5, 13, -1])) for _ in range(4))
    img = {'w': 2 * a + 1 + lo + hi, 'h': 2 * e + 1 + up + dn, 'bits': draw(st.sampled_from([8, 8, 24, 24, 4, 1])), 'd': draw(M.hexes(1, 3))}
    return {'img': img, 'x': a + lo, 'y': e + up, 'a': a, 'b': e, 'c': draw(M.wide(img['bits'])), 'fill': draw(st.booleans())}


@P.part(wide(), quick=150, rule='the bitmap is wider than 127')
def wide_rounds(case):
    """Circles and ellipses of more than 40 pixels radius in bitmaps they fill."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, a, e, c, fill = (case[k] for k in ('x', 'y', 'a', 'b', 'c', 'fill'))
    what = f'{"filled " if fill else ""}round ({x},{y}) half axes {a},{e} on {img.w}x{img.h} {img.bits}-bit'
    if a == e:
        b.circle(bmp, x, y, a, c, fill)
        pts = S.ring(x, y, a)
        rows = S.disc_runs(x, y, a)
    else:
        b.ellipse(bmp, x, y, e, a, c, fill)
        pts = {tuple(t) for t in p2.iterellipse(x, y, e, a)}
        rows = S.row_fill(pts)
    must, may = S.runs(img, rows) if fill else (S.clip(pts, img), set())
    S.painted(bmp, img, must, may, c, what)
    return img.w > 127


@st.composite
def penpoint(draw):
    img = draw(M.images(maxw=40, maxh=30))
    r = draw(M.rare(st.integers(0, 12), st.integers(12, 60), 5))
    near = st.integers(-r - 2, -1)
    return {'img': img, 'x': draw(st.one_of(st.integers(-4, 44), near, near.map(lambda v: img['w'] - 1 - v))),
            'y': draw(st.one_of(st.integers(-4, 34), near, near.map(lambda v: img['h'] - 1 - v))), 'r': r, 'c': draw(M.wide(img['bits']))}


@P.part(penpoint(), quick=600, rule='a pen of 2 or more that reaches the bitmap')
def round_pens(case):
    """A round pen of radius 2 or more paints the filled circle about its point, a smaller one the point."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r, c = case['x'], case['y'], case['r'], case['c']
    b.roundpen(bmp, [x, y], r, c)
    must, may = S.discs(img, [(x, y)], r) if r > 1 else (S.clip([(x, y)], img), set())
    S.painted(bmp, img, must, may, c, f'pen of {r} at ({x},{y}) on {img.w}x{img.h} {img.bits}-bit')
    return r > 1 and len(must) > 1


@st.composite
def thick(draw):
    c = draw(circ(maxr=12, far=False))
    c['pen'] = draw(M.rare(st.integers(1, 4), st.integers(5, 20), 6))
    return c


@P.part(thick(), quick=500, rule='visible ring with a pen of 2 or more')
def thick_circles(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r, c, pen = case['x'], case['y'], case['r'], case['c'], case['pen']
    b.thickcircle(bmp, x, y, r, pen, c)
    must, may = S.discs(img, S.ring(x, y, r), pen)
    S.painted(bmp, img, must, may, c, f'thick circle ({x},{y}) r={r} pen={pen} on {img.w}x{img.h} {img.bits}-bit')
    return pen > 1 and len(must) > 3


@st.composite
def ell(draw, bits=M.BITS, full=False):
    b_, a = draw(st.integers(0, 16) if full else M.radius(0, 16)), draw(st.integers(0, 16) if full else M.radius(0, 16))
    if full:
        w, h = 40, 40
        x, y = 20, 20
        img = {'w': w, 'h': h, 'bits': draw(st.sampled_from(bits)), 'd': '00'}
    else:
        img = draw(M.images(bits=bits, maxw=36, maxh=26))
        x, y = draw(M.coord(img['w'], 10)), draw(M.coord(img['h'], 10))
        if draw(st.integers(0, 9)) == 0:
            x = draw(st.sampled_from([-2000, -60, 3000]))
    return {'img': img, 'x': x, 'y': y, 'b': b_, 'a': a, 'c': draw(M.wide(img['bits'])), 'fill': draw(st.booleans())}


@P.part(st.tuples(st.integers(0, 60), st.integers(0, 60)), quick=800, rule='both half axes at least 2')
def ellipse_shape(case):
    """The outline of an ellipse is closed, symmetric, touches its four tips and stays within a pixel of the ideal curve."""
    a, b_ = case
    pts = [tuple(t) for t in p2.iterellipse(100, 90, b_, a)]
    S.check_ellipse(pts, 100, 90, a, b_, f'ellipse half axes x={a} y={b_}')
    same({tuple(t) for t in p2.ellipsevert(100, 90, b_, a)}, set(pts), 'vertex list of the ellipse')
    return a > 1 and b_ > 1


@P.part(ell(), quick=1200, rule='at least four pixels are visible')
def ellipses(case):
    """An ellipse on a bitmap is the visible part of the ideal outline, or of its rows when filled."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, a, b_, c = case['x'], case['y'], case['a'], case['b'], case['c']
    b.ellipse(bmp, x, y, b_, a, c, case['fill'])
    if case['fill']:
        ref = M.to_bmp(img)
        b.filledellipse(ref, x, y, b_, a, c)
        same(bytes(bmp), bytes(ref), 'filled ellipse by its two names')
    pts = {tuple(t) for t in p2.iterellipse(x, y, b_, a)}
    if a < 40 and b_ < 40:
        S.check_ellipse(pts, x, y, a, b_, 'ellipse')
    what = f'{"filled " if case["fill"] else ""}ellipse ({x},{y}) half axes x={a} y={b_} on {img.w}x{img.h} {img.bits}-bit'
    if case['fill']:
        must, may = S.runs(img, S.row_fill(pts))
    else:
        must, may = S.clip(pts, img), set()
    S.painted(bmp, img, must, may, c, what)
    return len(must) > 3


@st.composite
def rotell(draw):
    return {'x': draw(st.integers(-5, 40)), 'y': draw(st.integers(-5, 40)), 'b': draw(M.rare(st.integers(0, 14), st.integers(15, 60), 8)), 'a': draw(M.rare(st.integers(0, 14), st.integers(15, 60), 8)),
            'deg': draw(st.one_of(st.integers(-180, 360), st.sampled_from([0, 30, 45, 90, 180, 270]), st.integers(-2000, 2000))), 'pen': draw(M.rare(st.integers(1, 3), st.integers(4, 14), 8)),
            'bits': draw(st.sampled_from([1, 8, 24]))}


@P.part(rotell(), quick=400, rule='different half axes of at least 2, at an angle')
def rotated_ellipses(case):
    """A rotated thick ellipse is the unrotated outline turned about the centre, drawn with a round pen."""
    x, y, a, b_, deg, pen = (case[k] for k in ('x', 'y', 'a', 'b', 'deg', 'pen'))
    got = {tuple(t) for t in p2.iterellipserot(x, y, b_, a, deg)}
    t = math.radians(deg)
    co, si = math.cos(t), math.sin(t)
    want = []
    for px, py in p2.iterellipse(0, 0, b_, a):
        want.append((x + px * co - py * si, y + px * si + py * co))
    rot2 = [(x + px * co + py * si, y - px * si + py * co) for px, py in p2.iterellipse(0, 0, b_, a)]

    def matches(w):
        return all(any(abs(u - gx) <= 0.5001 and abs(v - gy) <= 0.5001 for gx, gy in got) for u, v in w) and \
            all(any(abs(u - gx) <= 0.5001 and abs(v - gy) <= 0.5001 for u, v in w) for gx, gy in got)
    need(matches(want) or matches(rot2), 'rotated ellipse %s is not the turned outline: %s', case, sorted(got)[:10])
    need(matches(want), 'ellipse %s turns the other way', case)
    img = M.Img(36, 36, case['bits'])
    img.pal = M.defaultpal(case['bits']) if case['bits'] < 24 else None
    bmp = M.to_bmp(img)
    c = (1 << case['bits']) - 1
    b.thickellipserot(bmp, x, y, b_, a, deg, pen, c)
    must, may = S.discs(img, got, pen)
    S.painted(bmp, img, must, may, c, f'rotated ellipse {case}')
    return a != b_ and min(a, b_) > 1 and deg % 90 != 0


factors = st.lists(st.sampled_from([0, 0.25, 0.5, 0.8, 1.0, 1]), min_size=3, max_size=3)


@st.composite
def shaded(draw, k):
    c = draw(circ(maxr=11, minr=1, far=False, bits=(8, 24, 4, 1, 24)))
    c['k'] = k
    c['lum'] = [draw(st.integers(0, 255)), draw(st.integers(0, 255))]
    c['f'] = draw(factors)
    c['pen'] = draw(M.rare(st.integers(1, 5), st.integers(6, 24), 8))
    c['c2'] = draw(st.integers(0, 0xFFFFFF))
    c['c1'] = draw(st.integers(0, 0xFFFFFF))
    c['a'] = draw(M.rare(st.integers(0, 10), M.rare(st.integers(11, 40), st.integers(41, 150), 4), 8))
    c['deg'] = draw(M.rare(st.integers(0, 359), st.integers(-1000, 1000), 8))
    c['fn'] = draw(st.sampled_from(['', '', 's3', 's5', 's7']))
    return c


def rgbof(c):
    return ((c >> 16) & 255, (c >> 8) & 255, c & 255)


@P.part([shaded(k) for k in ['gradcircle', 'gradthick', 'orb', 'sphere3', 'sphere2', 'dichromic', 'gradell', 'gradrot', 'encircle']], quick=900, rule='at least four shaded pixels are visible')
def shaded_rounds(case):
    """A shaded circle, ring, sphere, orb or ellipse is its nested rings painted from the outside in, the colour of each
    interpolated between the two ends of the brightness range (or the two colours)."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r, f, k = case['x'], case['y'], case['r'], case['f'], case['k']
    l0, l1 = case['lum']
    shade = lambda l: tuple(l * u for u in f)
    extra = (RAMP[case['fn']][0],) if case['fn'] else ()
    R = RAMP[case['fn'] or 'lerp'][1]
    layers = []
    what = f'{k} ({x},{y}) r={r} on {img.w}x{img.h} {img.bits}-bit'

    def ringlayers(n, col):
        for i in range(r - 1, n, -1):
            layers.append(S.discs(img, S.ring(x, y, i), 2) + (col(i),))
    if k == 'gradcircle':
        b.gradcircle(bmp, x, y, r, [l0, l1], f, *extra)
        ringlayers(0, lambda i: shade(l0 + (l1 - l0) * R(i / r)))
    elif k == 'sphere3':
        b.sphere(bmp, x, y, r, f, *extra)
        ringlayers(0, lambda i: shade(255 - 255 * R(i / r)))
    elif k in ('sphere2', 'dichromic'):
        c1, c2 = case['c1'], case['c2']
        if k == 'sphere2':
            quiet(b.sphere, bmp, x, y, r, [c1, c2], *extra)
        else:
            quiet(b.graddichromiccircle, bmp, x, y, r, c1, c2, *extra)
        if img.bits == 24:
            ringlayers(0, lambda i: tuple(u + (v - u) * R(i / r) for u, v in zip(rgbof(c1), rgbof(c2))))
    elif k == 'gradthick':
        b.gradthickcircle(bmp, x, y, r, case['pen'], [l0, l1], f)
        for i in range(case['pen'], 0, -1):
            layers.append(S.discs(img, S.ring(x, y, r), i) + (shade(l0 + (l1 - l0) * i / case['pen']),))
    elif k == 'encircle':
        b.thickencirclearea(bmp, x, y, r, f)
        for i in range(8, 0, -1):
            layers.append(S.discs(img, S.ring(x, y, r), i) + (shade(255 - 255 * i / 8),))
    elif k == 'orb':
        b.orb(bmp, x, y, r, f)
        j = r // 2
        layers.append(S.runs(img, S.disc_runs(x, y, j)) + (shade(255),))
        ringlayers(j, lambda i: shade(255 * (r - i) / j))
    elif k == 'gradell':
        a = case['a']
        b.gradellipse(bmp, x, y, r, a, [l0, l1], f, *extra)
        m = max(a, r)
        for i in range(m, 0, -1):
            if a - m + i <= 0 or r - m + i <= 0:
                break
            pts = {tuple(t) for t in p2.iterellipse(x, y, r - m + i, a - m + i)}
            layers.append(S.runs(img, S.row_fill(pts)) + (shade(l0 + (l1 - l0) * R(i / m)),))
    elif k == 'gradrot':
        a = case['a']
        b.gradthickellipserot(bmp, x, y, r, a, case['deg'], case['pen'], [l0, l1], f, *extra)
        pts = {tuple(t) for t in p2.iterellipserot(x, y, r, a, case['deg'])}
        for i in range(case['pen'], 0, -1):
            layers.append(S.discs(img, pts, i) + (shade(l0 + (l1 - l0) * R(i / case['pen'])),))
    S.layered(bmp, img, layers, what)
    return sum(len(l[0]) for l in layers) > 3


@st.composite
def windowed(draw, k):
    w, h = draw(st.integers(1, 24)), draw(st.integers(1, 20))
    return {'w': w, 'h': h, 'bits': draw(st.sampled_from([1, 8, 24])), 'x': draw(M.coord(w, 12)), 'y': draw(M.coord(h, 12)),
            'r': draw(st.integers(1, 12)), 'a': draw(st.integers(0, 12)), 'pen': draw(st.integers(1, 4)), 'deg': draw(st.integers(0, 359)),
            'k': k}


@P.part([windowed(k) for k in ['disc', 'circle', 'thick', 'ellipse', 'fillellipse', 'grad', 'orb', 'gradell', 'roundline']], quick=800, rule='part of the shape lies outside the bitmap and part inside')
def clipping(case):
    """A shape on a small bitmap is exactly the window of the same shape on a large one."""
    w, h, x, y, r, a, pen = (case[k] for k in ('w', 'h', 'x', 'y', 'r', 'a', 'pen'))
    O = 40
    big = M.Img(w + 2 * O, h + 2 * O, case['bits'])
    big.pal = M.defaultpal(case['bits']) if case['bits'] < 24 else None
    sm = M.Img(w, h, case['bits'], pal=big.pal)
    c = (1 << case['bits']) - 1
    imgs = []
    for img, o in ((sm, 0), (big, O)):
        bmp = M.to_bmp(img)
        X, Y = x + o, y + o
        {'disc': lambda: b.circle(bmp, X, Y, r, c, True), 'circle': lambda: b.circle(bmp, X, Y, r, c),
         'thick': lambda: b.thickcircle(bmp, X, Y, r, pen, c), 'ellipse': lambda: b.ellipse(bmp, X, Y, r, a, c),
         'fillellipse': lambda: b.ellipse(bmp, X, Y, r, a, c, True),
         'grad': lambda: b.gradcircle(bmp, X, Y, r, [255, 60], [1, 1, 1]),
         'orb': lambda: b.orb(bmp, X, Y, r, [1, 1, 1]), 'gradell': lambda: b.gradellipse(bmp, X, Y, r, a, [255, 60], [1, 1, 1]),
         'roundline': lambda: b.thickroundline(bmp, [X, Y], [X + a, Y - r], pen, c)}[case['k']]()
        imgs.append(M.parse(bmp))
    win = M.Img(w, h, case['bits'], [row[O:O + w] for row in imgs[1].px[O:O + h]], big.pal)
    need(win.px == imgs[0].px, '%s on %sx%s: %s', case, w, h, M.diff(imgs[0], win))
    n, m = len(M.ink(imgs[0])), len(M.ink(imgs[1]))
    return 0 < n < m
