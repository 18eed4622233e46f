"""C12 erasing every nth line and outlining, over bitmaps, rectangles and circles."""
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, quiet
from .c11 import anycirc
import pythonbmp.BITMAPlib as b

P = Prop('C12', ['row ends of circular areas (within a pixel of the circle) may be treated or not'])


def patval(pat, bits, x):
    """The pixel a byte pattern shows at column x."""
    if bits == 24:
        return pat * 0x010101
    if bits == 8:
        return pat
    per = 8 // bits
    return (pat >> (8 - bits - bits * (x % per))) & ((1 << bits) - 1)


@st.composite
def erasing(draw):
    img = draw(M.images(maxw=40, maxh=16))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 20, 300]))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    return {'img': img, 'n': n, 'k': draw(st.integers(0, n - 1)), 'pat': draw(st.integers(0, 255)), 'simple': draw(st.booleans()),
            'whole': draw(st.integers(0, 3)) == 0,
            'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


@P.part(erasing(), quick=2500, rule='a line of the area is erased and another one is left')
def erase_lines(case):
    """Of the area's rows, counted from 1 at its top, those with number = k modulo n get the byte pattern; nothing else changes."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    n, k, pat = case['n'], case['k'], case['pat']
    if case['simple']:
        k, pat = 0, 0
    x1, y1, x2, y2 = case['r']
    if case['whole']:
        x1, y1, x2, y2 = 0, 0, img.w - 1, img.h - 1
        if case['simple']:
            f, a = b.eraseeverynthhorizontalline, (n,)
        else:
            f, a = b.erasealternatehorizontallines, (n, k, pat)
    elif case['simple']:
        f, a = b.eraseeverynthhorilineinregion, (x1, y1, x2, y2, n)
    else:
        f, a = b.erasealternatehorizontallinesinregion, (x1, y1, x2, y2, n, k, pat)
    what = f'{f.__name__}{a} on {img.w}x{img.h} {img.bits}-bit'
    _, out = quiet(f, bmp, *a)
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    want = img.copy()
    hit = 0
    for y in range(y1, y2 + 1):
        if (y - y1 + 1) % n == k:
            hit += 1
            for x in range(x1, x2 + 1):
                want.px[y][x] = patval(pat, img.bits, x)
    M.expect(bmp, want, what)
    return 0 < hit < y2 - y1 + 1


@st.composite
def erasing_circ(draw):
    c = draw(anycirc(M.BITS))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 40, 100, 300]))
    c.update(n=n, k=draw(st.integers(0, n - 1)), pat=draw(st.integers(0, 255)), simple=draw(st.booleans()))
    return c


@P.part(erasing_circ(), quick=1500, rule='the circle lies inside and at least four pixels are in it')
def erase_lines_circle(case):
    """In a circle the rows of the bitmap with y = k modulo n are erased, between the sides of the circle only."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    n, k, pat = case['n'], case['k'], case['pat']
    if case['simple']:
        k, pat = 0, 0
    x, y, r = case['x'], case['y'], case['r']
    if case['simple']:
        _, out = quiet(b.eraseeverynthhorizontallineinccircregion, bmp, x, y, r, n)
    else:
        _, out = quiet(b.erasealternatehorizontallinesincircregion, bmp, x, y, r, n, k, pat)
    what = f'erasing rows {k} mod {n} with {pat:#x} in circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    if not (img.inside(x - r, y - r) and img.inside(x + r, y + r)):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    core, rim = S.disc_parts(img, x, y, r)
    S.treated(bmp, img, core, rim, lambda i, j, v: v == (patval(pat, img.bits, i) if j % n == k else img.px[j][i]), what)
    return len(core) > 3


@st.composite
def outlining(draw):
    img = draw(M.images(maxw=40, maxh=16, solid=True))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    return {'img': img, 'whole': draw(st.integers(0, 3)) == 0,
            'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


@P.part(outlining(), quick=2000, rule='the outline has a pixel that is not zero')
def outlines(case):
    """Every pixel becomes the exclusive or of itself and the pixel above it in the area; the top row becomes zero."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    if case['whole']:
        x1, y1, x2, y2 = 0, 0, img.w - 1, img.h - 1
        _, out = quiet(b.outline, bmp)
    else:
        _, out = quiet(b.outlineregion, bmp, x1, y1, x2, y2)
    what = f'outline of {(x1, y1, x2, y2)} in {img.w}x{img.h} {img.bits}-bit'
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    want = img.copy()
    seen = False
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            want.px[y][x] = img.px[y][x] ^ img.px[y - 1][x] if y > y1 else 0
            seen |= want.px[y][x] != 0
    M.expect(bmp, want, what)
    return seen


@P.part(anycirc(M.BITS), quick=1500, rule='at least four pixels are inside the circle')
def outline_circle(case):
    """In a circle, also one partly outside, every pixel becomes the exclusive or of itself and its right neighbor."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r = case['x'], case['y'], case['r']
    quiet(b.outlinecircregion, bmp, x, y, r)
    core, rim = S.disc_parts(img, x, y, r)
    last = {p for p in core | rim if p[0] == img.w - 1}     # no right neighbor: must stay
    S.treated(bmp, img, core - last, rim - last, lambda i, j, v: v == img.px[j][i] ^ img.px[j][i + 1],
              f'outline of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit')
    return len(core) > 3
