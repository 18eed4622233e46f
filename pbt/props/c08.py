"""C08 flips and mirrors of whole bitmaps and rectangles."""
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C08')

# reference: where the pixel at offset (i, j) of an n x m area comes from
h2 = lambda n: (n + 1) // 2
REF = {
    'F_H': lambda i, j, n, m: (n - 1 - i, j),
    'F_V': lambda i, j, n, m: (i, m - 1 - j),
    'M_L': lambda i, j, n, m: (min(i, n - 1 - i), j),
    'M_R': lambda i, j, n, m: (max(i, n - 1 - i), j),
    'M_T': lambda i, j, n, m: (i, min(j, m - 1 - j)),
    'M_B': lambda i, j, n, m: (i, max(j, m - 1 - j)),
    'M_TL': lambda i, j, n, m: (min(i, n - 1 - i), min(j, m - 1 - j)),
    'M_TR': lambda i, j, n, m: (max(i, n - 1 - i), min(j, m - 1 - j)),
    'M_BL': lambda i, j, n, m: (min(i, n - 1 - i), max(j, m - 1 - j)),
    'M_BR': lambda i, j, n, m: (max(i, n - 1 - i), max(j, m - 1 - j)),
}
WHOLE = {'F_H': b.fliphorizontal, 'F_V': b.flipvertical, 'M_L': b.mirrorleft, 'M_R': b.mirrorright, 'M_T': b.mirrortop,
         'M_B': b.mirrorbottom, 'M_TL': b.mirrortopleft, 'M_TR': b.mirrortopright, 'M_BL': b.mirrorbottomleft, 'M_BR': b.mirrorbottomright}
REGION = {'F_H': b.fliphorizontalregion, 'F_V': b.flipverticalregion, 'M_L': b.mirrorleftinregion, 'M_R': b.mirrorrightinregion,
          'M_T': b.mirrortopinregion, 'M_B': b.mirrorbottominregion, 'M_TL': b.mirrortopleftinregion, 'M_TR': b.mirrortoprightinregion,
          'M_BL': b.mirrorbottomleftinregion, 'M_BR': b.mirrorbottomrightinregion}


def apply(img, op, x1, y1, x2, y2):
    n, m = x2 - x1 + 1, y2 - y1 + 1
    out = img.copy()
    for j in range(m):
        for i in range(n):
            u, v = REF[op](i, j, n, m)
            out.px[y1 + j][x1 + i] = img.px[y1 + v][x1 + u]
    return out


@st.composite
def whole(draw, op):
    return {'img': draw(M.images(maxw=40, maxh=16)), 'op': op}


@P.part([whole(op) for op in sorted(WHOLE)], quick=1500, rule='the transform moves at least one pixel')
def whole_images(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    WHOLE[case['op']](bmp)
    want = apply(img, case['op'], 0, 0, img.w - 1, img.h - 1)
    M.expect(bmp, want, f'{case["op"]} of {img.w}x{img.h} {img.bits}-bit')
    return want.px != img.px


@st.composite
def region(draw, op):
    img = draw(M.images(maxw=40, maxh=16))
    pad = draw(st.sampled_from([0] * 9 + [4]))
    return {'img': img, 'op': op,
            'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


@P.part([region(op) for op in sorted(REGION)], quick=2500, rule='the transform moves at least one pixel of the rectangle')
def rectangles(case):
    """In a rectangle (corners in any order) exactly that transform happens, outside it nothing changes."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    _, out = quiet(REGION[case['op']], bmp, x1, y1, x2, y2)
    what = f'{case["op"]} of region {case["r"]} in {img.w}x{img.h} {img.bits}-bit'
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    want = apply(img, case['op'], min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2))
    M.expect(bmp, want, what)
    return want.px != img.px


@P.part(region(''), quick=600, rule='the flip moves at least one pixel of the rectangle')
def pixelwise_flips(case):
    """The pixel based flips agree with the bulk ones and twice the same flip restores the image."""
    img = M.from_case(case['img'])
    x1, y1, x2, y2 = case['r']
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        return False
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    moved = False
    for op, f in (('F_H', b.fliphorzontalpixelbased), ('F_V', b.fliphverticalalpixelbased)):
        bmp = M.to_bmp(img)
        f(bmp, x1, y1, x2, y2)
        want = apply(img, op, x1, y1, x2, y2)
        M.expect(bmp, want, f'pixel based {op} of {(x1, y1, x2, y2)} in {img.w}x{img.h} {img.bits}-bit')
        moved |= want.px != img.px
        f(bmp, x1, y1, x2, y2)
        M.expect(bmp, img, f'pixel based {op} applied twice')
    return moved


@st.composite
def swaps(draw):
    img = draw(M.images(maxw=20, maxh=10))
    p = lambda: [draw(M.coord(img['w'], 0)), draw(M.coord(img['h'], 0))]
    return {'img': img, 'p': p(), 'q': p()}


@P.part(swaps(), quick=400, rule='two different colours are swapped')
def pixel_swap(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    (x, y), (u, v) = case['p'], case['q']
    b.swapcolors(bmp, tuple(case['p']), tuple(case['q']))
    want = img.copy()
    want.px[y][x], want.px[v][u] = img.px[v][u], img.px[y][x]
    M.expect(bmp, want, f'swap of {case["p"]} and {case["q"]}')
    return want.px != img.px


@st.composite
def transpose(draw):
    return draw(M.images(maxw=40, maxh=40))


@P.part(transpose(), quick=800, rule='more than one row and column')
def transposes(case):
    """Exchanging x and y reflects the image about the main diagonal at 1 and 4 bits, about the other one at 8 and 24 bits."""
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    got, _ = quiet(b.flipXY, bmp)
    rows = [[img.px[y][x] for y in range(img.h)] for x in range(img.w)]
    if img.bits >= 8:
        rows = [r[::-1] for r in rows[::-1]]
    want = M.Img(img.h, img.w, img.bits, rows, img.pal)
    M.expect(got, want, f'transpose of {img.w}x{img.h} {img.bits}-bit')
    same(bytes(bmp), keep, 'source of the transpose')
    return img.w > 1 and img.h > 1
