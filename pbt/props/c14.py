"""C14 gradient rectangles, gradient backgrounds and gradient strokes."""
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, quiet
import pythonbmp.BITMAPlib as b
from pythonbmp import mathlib as ml

P = Prop('C14', ['the ramp of a gradient rectangle is measured from the left (top) edge of the bitmap in units of its width (height), as the pinned images do',
                 'rounding of a channel is left open (within 1)',
                 'the area of a stroke is taken from the plain stroke of the same pen, which C05 checks'])


def s3(v):
    return v * v * (3 - 2 * v)


def s5(v):
    return v ** 3 * (v * (v * 6 - 15) + 10)


def s7(v):
    return v ** 4 * (35 + v * (-84 + v * (70 - 20 * v)))


RAMP = {'lerp': (ml.lerp, lambda v: v), 's3': (ml.smoothsteplerp, s3), 's5': (ml.smoothersteplerp, s5), 's7': (ml.smootheststeplerp, s7)}


def ramp(name, a, z, t):
    return a + (z - a) * (RAMP[name][1](t) if a != z else 0)


@st.composite
def colours(draw):
    return {'lum': [draw(st.integers(0, 255)), draw(st.integers(0, 255))], 'f': [draw(st.integers(0, 20)) / 20 for _ in range(3)],
            'c1': draw(st.integers(0, 0xFFFFFF)), 'c2': draw(st.integers(0, 0xFFFFFF)), 'fn': draw(st.sampled_from(sorted(RAMP))), 'plain': draw(st.booleans())}


@st.composite
def rects(draw):
    img = draw(M.images(bits=(24,) * 8 + (8,) * 4 + (4, 1), maxw=24, maxh=14))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    c = {'img': img, 'dir': draw(st.integers(0, 1)), 'di': draw(st.booleans()), 'whole': draw(st.integers(0, 4)) == 0,
         'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}
    c.update(draw(colours()))
    return c


def rgb(v):
    return (v >> 16, v >> 8 & 255, v & 255)


@P.part(rects(), quick=1200, rule='the rectangle lies inside and is at least two pixels long in the direction of the ramp')
def gradient_rectangles(case):
    """Every pixel of the rectangle gets the ramp colour of its column (row); nothing else changes."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    name = case['fn']
    if case['whole']:
        x1, y1, x2, y2 = 0, 0, img.w - 1, img.h - 1
        name = 'lerp'
        if case['di']:
            _, out = quiet(b.fillbackgroundwithdichromaticgrad, bmp, case['lum'], case['c1'], case['c2'], case['dir'])
        else:
            _, out = quiet(b.fillbackgroundwithgrad, bmp, case['lum'], case['f'], case['dir'])
    else:
        extra = () if case['plain'] else (RAMP[name][0],)
        if case['plain']:
            name = 'lerp'
        if case['di']:
            _, out = quiet(b.filleddichromaticgradrect, bmp, x1, y1, x2, y2, case['c1'], case['c2'], case['dir'], *extra)
        else:
            _, out = quiet(b.filledgradrect, bmp, x1, y1, x2, y2, case['lum'], case['f'], case['dir'], *extra)
    what = f'{"two-colour " if case["di"] else ""}gradient ({name}) of {(x1, y1, x2, y2)} direction {case["dir"]} in {img.w}x{img.h} {img.bits}-bit'
    if img.bits < 8 or (img.bits == 8 and case['di']):
        M.expect(bmp, img, what + ' (refused)')
        need('24' in out, '%s: no message', what)
        return False
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (refused)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    if case['di']:
        a, z = rgb(case['c1']), rgb(case['c2'])
    else:
        a, z = [tuple(f * v for f in case['f']) for v in case['lum']]
    layers = []
    n = (y2 - y1 if case['dir'] else x2 - x1) + 1
    for k in range((y1 if case['dir'] else x1), (y2 if case['dir'] else x2) + 1):
        t = min(1.0, k / n)
        pts = {(x, k) for x in range(x1, x2 + 1)} if case['dir'] else {(k, y) for y in range(y1, y2 + 1)}
        layers.append((pts, set(), tuple(ramp(name, u, v, t) for u, v in zip(a, z))))
    S.layered(bmp, img, layers, what, 1.001)
    area = {(x, y) for x in range(x1, x2 + 1) for y in range(y1, y2 + 1)}
    got = M.parse(bmp)
    for x, y in area:       # untouched pixels of the area must already have had the colour
        if got.px[y][x] == img.px[y][x]:
            k = y if case['dir'] else x
            t = min(1.0, k / n)
            c = tuple(ramp(name, u, v, t) for u, v in zip(a, z))
            need(M.colour_ok(got, got.px[y][x], c, 1.001), '%s: (%s,%s) was left %#x, expected about %s', what, x, y, got.px[y][x], c)
    return n > 1


@st.composite
def strokes(draw):
    img = {'w': draw(M.size(1, 40, 160)), 'h': draw(M.size(1, 40, 160)), 'bits': draw(st.sampled_from(M.BITS)), 'd': draw(M.hexes(1, 8))}
    pad = draw(st.sampled_from([0, 6]))
    n = draw(M.rare(st.integers(2, 4), st.integers(5, 20), 15))
    c = {'img': img, 'pts': [[draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))] for _ in range(n)],
         'pen': draw(M.rare(st.integers(1, 5), M.rare(st.integers(6, 24), st.integers(25, 70), 4), 12)), 'kind': draw(st.sampled_from(['line', 'poly', 'lines', 'dots']))}
    c.update(draw(colours()))
    return c


@P.part(strokes(), quick=700, rule='pen radius of two or more')
def gradient_strokes(case):
    """A gradient stroke is the plain stroke with the pen shrinking from its radius to 1 and the colour running along the ramp."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    pts, pen, kind, (l1, l2), f = [list(p) for p in case['pts']], case['pen'], case['kind'], case['lum'], case['f']
    name = case['fn']
    extra = () if case['plain'] else (RAMP[name][0],)
    if case['plain'] or kind == 'line':
        name = 'lerp'
    if kind == 'line':
        b.gradthickroundline(bmp, pts[0], pts[1], pen, [l1, l2], f)
        plain = lambda m, r, c: b.thickroundline(m, pts[0], pts[1], r, c)
    elif kind == 'poly':
        b.gradthickplotpoly(bmp, pts, pen, [l1, l2], f, *extra)
        plain = lambda m, r, c: b.thickplotpoly(m, pts, r, c)
    elif kind == 'lines':
        b.gradplotlines(bmp, pts, pen, [l1, l2], f, *extra)
        plain = lambda m, r, c: b.plotlines(m, pts, c, r)
    else:
        b.gradvert(bmp, pts, pen, [l1, l2], f, *extra)
        plain = lambda m, r, c: b.plotxypointlist(m, pts, r, c)
    layers = []
    blank = M.Img(img.w, img.h, img.bits, pal=img.pal)
    c = (1 << img.bits) - 1
    for r in range(pen, 0, -1):
        m = M.to_bmp(blank)
        plain(m, r, c)
        lum = ramp(name, l1, l2, r / pen)
        layers.append((S.inked(m, blank, c, 'plain stroke'), set(), tuple(lum * k for k in f)))
    what = f'gradient {kind} {name} {case["lum"]} {f} pen {pen} through {pts} in {img.w}x{img.h} {img.bits}-bit'
    S.layered(bmp, img, layers, what, 2.001)
    got = M.parse(bmp)
    top = {}
    for must, _, rgbf in layers:
        top.update((p, rgbf) for p in must)
    for (x, y), want in top.items():
        need(M.colour_ok(got, got.px[y][x], want, 2.001), '%s: (%s,%s) is %#x, expected about %s', what, x, y, got.px[y][x], want)
    return pen > 1
