"""C11 tone and colour adjustments of bitmaps, rectangles and circles."""
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C11', ['rounding of a channel is left open (within 1, gamma within 2)',
                 'known findings: the color filter leaves the last pixel of each row, a horizontal gradient leaves the top row; exactly those pixels are allowed for',
                 'row ends of circular areas (within a pixel of the circle) may be treated or not'])


def clamp(v):
    return max(0.0, min(255.0, v))


def mono(c, p):
    m = sum(c) / 3
    return (m, m, m), 1.001


def filt(c, p):
    return tuple(clamp(v * f) for v, f in zip(c, p)), 0.501


def gamma(c, p):
    lum = max(c)
    if lum == 0:
        return c, 0.0
    f = (lum / 255) ** p * 255 / lum
    return tuple(v * f for v in c), 2.001


def bright(c, p):
    return tuple(clamp(v * (1 + p / 100)) for v in c), 0.501


def thresh(c, p):
    lo, hi = min(p), max(p)
    lum = max(c)
    if lum == 0:
        return c, 0.0
    f = lo / lum if lum < lo else hi / lum if lum > hi else 1
    return tuple(v * f for v in c), 1.001 if f != 1 else 0.0


def inv(c, p):
    return tuple(255 - v for v in c), 0.0


OPS = {'mono': (mono, b.monofilterto24bitimage, b.monofilterto24bitregion, b.monocircle),
       'filter': (filt, b.colorfilterto24bitimage, b.colorfilterto24bitregion, b.colorfiltercircregion),
       'gamma': (gamma, b.gammaadjto24bitimage, b.gammaadjto24bitregion, b.gammacorrectcircregion),
       'bright': (bright, b.brightnesseadjto24bitimage, b.brightnesseadjto24bitregion, b.brightnessadjcircregion),
       'thresh': (thresh, b.thresholdadjto24bitimage, b.thresholdadjto24bitregion, b.thresholdadjcircregion)}


@st.composite
def param(draw, op):
    u = lambda lo, hi: draw(st.integers(lo * 20, hi * 20)) / 20
    if op == 'filter':
        return [draw(M.rare(st.integers(0, 40).map(lambda v: v / 20), st.one_of(st.integers(0, 4000).map(lambda v: v / 500), st.integers(9, 300)), 8)) for _ in range(3)]
    if op == 'gamma':
        return draw(st.one_of(st.sampled_from([0.25, 0.5, 0.9, 1.0, 1.1, 2.0, 3.5]), st.integers(5, 400).map(lambda v: v / 100), st.integers(4, 20)))
    if op == 'bright':
        return draw(st.one_of(st.integers(-100, 200), st.sampled_from([-100, 0, 100, 33.5]), st.integers(-1000, 2000).map(lambda v: v / 8)))
    if op == 'thresh':
        return [draw(st.integers(0, 255)), draw(st.integers(0, 255))]
    return None


def rgb(v):
    return (v >> 16, (v >> 8) & 255, v & 255)


def fits(v, c, op, p):
    want, tol = OPS[op][0](c, p) if op in OPS else op(c, p)
    return all(abs(g - w) <= tol + 1e-9 for g, w in zip(rgb(v), want))


def check(bmp, img, area, op, p, what, spare=()):
    """Pixels of `area` are adjusted (those of `spare` may be left), all others unchanged.  area: {(x,y)} or a map to per-pixel params."""
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (img.w, img.h, img.bits), '%s: geometry changed', what)
    if got.pal != img.pal:
        raise Violation(f'{what}: palette changed')
    bad = []
    moved = False
    for y in range(img.h):
        for x in range(img.w):
            g, o = got.px[y][x], img.px[y][x]
            moved |= g != o
            if (x, y) in area:
                q = area[(x, y)] if isinstance(area, dict) else p
                if not fits(g, rgb(o), op, q) and not ((x, y) in spare and g == o):
                    f = OPS[op][0] if op in OPS else op
                    bad.append(f'({x},{y}) went from {rgb(o)} to {rgb(g)}, expected about {f(rgb(o), q)[0]}')
            elif g != o:
                bad.append(f'({x},{y}) outside changed from {rgb(o)} to {rgb(g)}')
    if bad:
        raise Violation(f'{what}: {len(bad)} wrong pixels: ' + '; '.join(bad[:4]))
    return moved


@st.composite
def rects(draw, op):
    img = draw(M.images(bits=(24,) * 12 + (8, 4, 1), maxw=20, maxh=12))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    return {'img': img, 'op': op, 'p': draw(param(op)), 'whole': draw(st.integers(0, 4)) == 0,
            'near': draw(st.sampled_from([0, 0, 0.02, -0.03, 0.4])),
            'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


def args(p):
    return [] if p is None else [p]


@P.part([rects(op) for op in sorted(OPS)], quick=3000, rule='the adjustment changes a pixel of the rectangle')
def rectangles(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    op, p = case['op'], case['p']
    x1, y1, x2, y2 = case['r']
    if case['near'] and op in ('filter', 'gamma', 'bright'):      # the same picture adjusted a little differently before
        quiet(OPS[op][1], M.to_bmp(img), [max(0, v + case['near']) for v in p] if op == 'filter' else p + case['near'])
    if case['whole']:
        x1, y1, x2, y2 = 0, 0, img.w - 1, img.h - 1
        _, out = quiet(OPS[op][1], bmp, *args(p))
    else:
        _, out = quiet(OPS[op][2], bmp, x1, y1, x2, y2, *args(p))
    what = f'{op} {p} of {(x1, y1, x2, y2)} in {img.w}x{img.h} {img.bits}-bit'
    if img.bits != 24 or not (img.inside(x1, y1) and img.inside(x2, y2)):
        if op == 'mono' and img.bits != 24:
            return False        # the monochrome filter of a rectangle does not say what it does at other depths
        M.expect(bmp, img, what + ' (refused)')
        need(('24' in out) if img.bits != 24 else ('out of bounds' in out), '%s: no message', what)
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    area = {(x, y) for x in range(x1, x2 + 1) for y in range(y1, y2 + 1)}
    spare = {(x2, y) for y in range(y1, y2 + 1)} if op == 'filter' else ()
    return check(bmp, img, area, op, p, what, spare)


@st.composite
def anycirc(draw, bits, inside=None, maxw=30, maxh=24):
    img = draw(M.images(bits=bits, maxw=maxw, maxh=maxh))
    w, h = img['w'], img['h']
    if inside or (inside is None and draw(st.integers(0, 2))):
        img['w'], img['h'] = w, h = max(w, 7), max(h, 7)
        r = draw(st.integers(0, (min(w, h) - 1) // 2))
        x = draw(st.one_of(st.integers(r, w - 1 - r), st.sampled_from([r, w - 1 - r])))
        y = draw(st.one_of(st.integers(r, h - 1 - r), st.sampled_from([r, h - 1 - r])))
    else:
        r = draw(M.radius(0, 14, 200))
        x = draw(st.one_of(M.coord(w, 6), st.sampled_from([-r - 1, -r, w - 1 + r, w + r, w - r, r - 1, -50, w + 50])))
        y = draw(st.one_of(M.coord(h, 6), st.sampled_from([-r - 1, -r, h - 1 + r, h + r, h - r, r - 1, -50, h + 50])))
    return {'img': img, 'x': x, 'y': y, 'r': r}


@st.composite
def circs(draw, op):
    c = draw(anycirc((24,) * 12 + (8, 4, 1)))
    c.update(op=op, p=draw(param(op)))
    return c


@P.part([circs(op) for op in sorted(OPS)], quick=3000, rule='at least four pixels are inside the circle')
def circles(case):
    """A circle, also one partly outside, is adjusted to its rim, and nothing else."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    op, p = case['op'], case['p']
    x, y, r = case['x'], case['y'], case['r']
    what = f'{op} {p} of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    _, out = quiet(OPS[op][3], bmp, x, y, r, *args(p))
    if img.bits != 24:
        M.expect(bmp, img, what + ' (refused)')
        need('24' in out, '%s: no message', what)
        return False
    core, rim = S.disc_parts(img, x, y, r)
    if op == 'filter':      # known finding KF3 leaves out the last pixel of a row
        edge = {q for q in core if (q[0] + 1, q[1]) not in core}
        core, rim = core - edge, rim | edge
    S.treated(bmp, img, core, rim, lambda i, j, v: fits(v, rgb(img.px[j][i]), op, p), what)
    return len(core) > 3


@P.part(M.images(maxw=40, maxh=12), quick=500, rule='always')
def invert_whole(case):
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    b.invertimagebits(bmp)
    m = (1 << img.bits) - 1
    want = M.Img(img.w, img.h, img.bits, [[v ^ m for v in r] for r in img.px], img.pal)
    M.expect(bmp, want, f'inverse of {img.w}x{img.h} {img.bits}-bit')
    b.invertimagebits(bmp)
    M.expect(bmp, img, 'inverted twice')
    return True


@st.composite
def invrects(draw):
    img = draw(M.images(maxw=40, maxh=12))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    return {'img': img, 'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


@P.part(invrects(), quick=1500, rule='the rectangle lies inside')
def invert_rectangle(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    _, out = quiet(b.invertregion, bmp, x1, y1, x2, y2)
    what = f'inverse of {case["r"]} in {img.w}x{img.h} {img.bits}-bit'
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what)
        need('out of bounds' in out, '%s: no message', what)
        return False
    want = img.copy()
    for y in range(min(y1, y2), max(y1, y2) + 1):
        for x in range(min(x1, x2), max(x1, x2) + 1):
            want.px[y][x] ^= (1 << img.bits) - 1
    M.expect(bmp, want, what)
    return True


@P.part(anycirc(M.BITS), quick=1500, rule='at least four pixels are inside the circle')
def invert_circle(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r = case['x'], case['y'], case['r']
    b.invertbitsincircregion(bmp, x, y, r)
    core, rim = S.disc_parts(img, x, y, r)
    m = (1 << img.bits) - 1
    S.treated(bmp, img, core, rim, lambda i, j, v: v == img.px[j][i] ^ m, f'inverse of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit')
    return len(core) > 3


@st.composite
def grads(draw):
    c = draw(rects('mono'))
    c['vert'] = draw(st.booleans())
    c['p'] = [draw(st.integers(-100, 150)), draw(st.integers(-100, 150))]
    return c


@P.part(grads(), quick=1500, rule='the gradient changes a pixel')
def gradients(case):
    """A brightness gradient runs linearly from the first to the second adjustment across the rectangle."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    l0, l1 = case['p']
    x1, y1, x2, y2 = case['r']
    v = case['vert']
    if case['whole']:
        x1, y1, x2, y2 = 0, 0, img.w - 1, img.h - 1
        _, out = quiet(b.verticalbrightnessgradto24bitimage if v else b.horizontalbrightnessgradto24bitimage, bmp, [l0, l1])
    else:
        _, out = quiet(b.verticalbrightnessgradto24bitregion if v else b.horizontalbrightnessgradto24bitregion, bmp, x1, y1, x2, y2, [l0, l1])
    what = f'{"vertical" if v else "horizontal"} gradient {case["p"]} of {(x1, y1, x2, y2)} in {img.w}x{img.h} {img.bits}-bit'
    if img.bits != 24 or not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (refused)')
        need(('24' in out) if img.bits != 24 else ('out of bounds' in out), '%s: no message', what)
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    area = {}
    for x in range(x1, x2 + 1):
        for y in range(y1, y2 + 1):
            if v:
                t = (y - y1) / (y2 - y1) if y2 > y1 else None
            else:
                t = (x - x1) / (x2 - x1) if x2 > x1 else None
            area[(x, y)] = (l1 if v else l0) if t is None else l0 + t * (l1 - l0)
    spare = () if v else {(x, y1) for x in range(x1, x2 + 1)}
    return check(bmp, img, area, 'bright', None, what, spare)


@st.composite
def circgrads(draw):
    c = draw(anycirc((24,) * 12 + (8, 4, 1)))
    c['vert'] = draw(st.booleans())
    c['p'] = [draw(st.integers(-100, 150)), draw(st.integers(-100, 150))]
    return c


@P.part(circgrads(), quick=1500, rule='the circle lies inside and at least four pixels are in it')
def circle_gradients(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    l0, l1 = case['p']
    x, y, r = case['x'], case['y'], case['r']
    v = case['vert']
    _, out = quiet(b.vertbrightnessgrad2circregion if v else b.horibrightnessgrad2circregion, bmp, x, y, r, [l0, l1])
    what = f'{"vertical" if v else "horizontal"} gradient {case["p"]} of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    if img.bits != 24 or not (img.inside(x - r, y - r) and img.inside(x + r, y + r)):
        M.expect(bmp, img, what + ' (refused)')
        need(('24' in out) if img.bits != 24 else ('out of bounds' in out), '%s: no message', what)
        return False
    core, rim = S.disc_parts(img, x, y, r, 'row' if v else 'col')

    def ok(i, j, c):
        t = ((j - y + r) if v else (i - x + r)) / max(1, 2 * r)
        return fits(c, rgb(img.px[j][i]), 'bright', l0 + t * (l1 - l0))
    S.treated(bmp, img, core, rim, ok, what)
    return len(core) > 3


@P.part(st.nothing(), quick=0, rule='re-run of known findings only')
def kf_exact(case):
    """The strict form: every pixel of the rectangle is filtered, or shaded by a horizontal gradient."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    area = {(x, y) for x in range(x1, x2 + 1) for y in range(y1, y2 + 1)}
    if case['op'] == 'filter':
        b.colorfilterto24bitregion(bmp, x1, y1, x2, y2, case['p'])
        return check(bmp, img, area, 'filter', case['p'], 'filter')
    b.horizontalbrightnessgradto24bitregion(bmp, x1, y1, x2, y2, case['p'])
    return check(bmp, img, {(x, y): case['p'][0] + (case['p'][1] - case['p'][0]) * (x - x1) / (x2 - x1) for x, y in area}, 'bright', None, 'gradient')
