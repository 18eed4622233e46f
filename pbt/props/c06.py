"""C06 axis-parallel shapes."""
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C06', ['4-bit horizontal runs: known finding KF1 (last pixel) is allowed for, and only that pixel'])


@st.composite
def runcase(draw):
    img = draw(M.images(maxw=40, maxh=16))
    horiz = draw(st.booleans())
    n, m = (img['w'], img['h']) if horiz else (img['h'], img['w'])
    pad = draw(st.sampled_from([0, 4, 40]))
    return {'img': img, 'h': horiz, 'at': draw(M.coord(m, draw(st.sampled_from([0, 0, 4])))),
            'a': draw(M.coord(n, pad)), 'b': draw(M.coord(n, pad)), 'c': draw(M.wide(img['bits']))}


@P.part(runcase(), quick=2000, rule='the run covers at least one pixel of the bitmap')
def straight_runs(case):
    """A horizontal or vertical run paints exactly its pixels that lie in the bitmap."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    at, a, z, c = case['at'], case['a'], case['b'], case['c']
    what = f'{"horizontal" if case["h"] else "vertical"} run at {at} from {a} to {z} on {img.w}x{img.h} {img.bits}-bit'
    if case['h']:
        quiet(b.horiline, bmp, at, a, z, c)
        must, may = S.runs(img, [(at, a, z)])
    else:
        quiet(b.vertline, bmp, at, a, z, c)
        must, may = S.clip({(at, y) for y in range(min(a, z), max(a, z) + 1)}, img), set()
    S.painted(bmp, img, must, may, c, what)
    return bool(must)


@st.composite
def rectcase(draw, maxw=40, maxh=24, out=True):
    img = draw(M.images(maxw=maxw, maxh=maxh))
    pad = draw(st.sampled_from([0, 0, 0, 5])) if out else 0
    return {'img': img, 'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))],
            'c': draw(M.wide(img['bits']))}


@P.part(rectcase(), quick=1500, rule='rectangle inside the bitmap and at least 2x2')
def filled_rectangles(case):
    """A filled rectangle paints every pixel between its corners, given in any order, and nothing else; partly outside: nothing at all."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    _, out = quiet(b.filledrect, bmp, x1, y1, x2, y2, case['c'])
    what = f'filled rectangle {case["r"]} on {img.w}x{img.h} {img.bits}-bit'
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message, printed %r', what, out)
        return False
    must, may = S.runs(img, [(y, min(x1, x2), max(x1, x2)) for y in range(min(y1, y2), max(y1, y2) + 1)])
    S.painted(bmp, img, must, may, case['c'], what)
    return x1 != x2 and y1 != y2


@P.part(rectcase(out=False), quick=1200, rule='rectangle at least 3x3')
def outlined_rectangles(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    b.rectangle(bmp, x1, y1, x2, y2, case['c'])
    must, may = S.runs(img, [(y1, x1, x2), (y2, x1, x2)])
    must |= {(x, y) for x in (x1, x2) for y in range(min(y1, y2), max(y1, y2) + 1)}
    S.painted(bmp, img, must, may - must, case['c'], f'rectangle {case["r"]} on {img.w}x{img.h} {img.bits}-bit')
    return abs(x1 - x2) > 1 and abs(y1 - y2) > 1


@st.composite
def gridcase(draw):
    c = draw(rectcase())
    c['s'] = [draw(M.size(1, 12, 150, 12)), draw(M.size(1, 12, 150, 12))]
    c['vec'] = draw(st.booleans())
    return c


@P.part(gridcase(), quick=800, rule='grid inside the bitmap with at least two lines each way')
def grids(case):
    """A grid has its lines at every step from the top left corner, up to but not including the far edges."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x1, y1, x2, y2 = case['r']
    sx, sy = case['s']
    if case['vec']:
        quiet(b.xygridvec, bmp, [x1, y1], [x2, y2], [sx, sy], case['c'])
    else:
        quiet(b.xygrid, bmp, x1, y1, x2, y2, [sx, sy], case['c'])
    if not (img.inside(x1, y1) and img.inside(x2, y2)):
        M.expect(bmp, img, 'grid out of bounds')
        return False
    xa, xb, ya, yb = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    must, may = S.runs(img, [(y, xa, xb) for y in range(ya, yb, sy)])
    must |= {(x, y) for x in range(xa, xb, sx) for y in range(ya, yb + 1)}
    S.painted(bmp, img, must, may - must, case['c'], f'grid {case["r"]} step {case["s"]} on {img.w}x{img.h} {img.bits}-bit')
    return xb - xa > sx and yb - ya > sy


@st.composite
def dotscase(draw):
    img = draw(M.images(maxw=30, maxh=24))
    n = draw(st.integers(0, 4))
    return {'img': img, 'pts': [[draw(M.coord(img['w'], 6)), draw(M.coord(img['h'], 6))] for _ in range(n)],
            'r': draw(st.integers(0, 5)), 'c': draw(M.wide(img['bits']))}


@P.part(dotscase(), quick=800, rule='at least one dot reaches the bitmap')
def dots(case):
    """A list of points is drawn as pixels (pen 0 or 1) or discs of the pen radius, clipped to the bitmap."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    r = case['r']
    b.plotxypointlist(bmp, [list(p) for p in case['pts']], r, case['c'])
    must, may = set(), set()
    for x, y in case['pts']:
        a, m = ({(x, y)}, set()) if r <= 1 else S.runs(img, S.disc_runs(x, y, r))
        must |= S.clip(a, img)
        may |= m
    S.painted(bmp, img, must, may - must, case['c'], f'dots {case["pts"]} radius {r} on {img.w}x{img.h} {img.bits}-bit')
    return bool(must)


@st.composite
def ticks(draw):
    img = draw(M.images(maxw=40, maxh=30))
    return {'img': img, 'pts': [[draw(M.coord(img['w'], 2)), draw(M.coord(img['h'], 2))] for _ in range(draw(st.integers(1, 5)))],
            'len': draw(st.integers(-6, 6)), 'adj': draw(st.integers(-3, 3)), 'c': draw(M.wide(img['bits'])), 'h': draw(st.booleans())}


@P.part(ticks(), quick=500, rule='a tick reaches the bitmap')
def tick_marks(case):
    """Tick marks start at each given point and extend by length plus adjustment."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    d = case['len'] + case['adj']
    must, may = set(), set()
    if case['h']:
        quiet(b.horilinevert, bmp, case['pts'], case['len'], case['adj'], case['c'])
        for x, y in case['pts']:
            a, m = S.runs(img, [(y, x, x + d)])
            must |= a
            may |= m
    else:
        quiet(b.vertlinevert, bmp, case['pts'], case['len'], case['adj'], case['c'])
        for x, y in case['pts']:
            must |= S.clip({(x, t) for t in range(min(y, y + d), max(y, y + d) + 1)}, img)
    S.painted(bmp, img, must, may - must, case['c'], f'ticks {case}')
    return bool(must)


@P.part(runcase(), quick=0, rule='(re-runs known finding KF1 only)')
def kf1_exact_run(case):
    """The same as straight_runs for a horizontal run, without the tolerance for KF1."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    b.horiline(bmp, case['at'], case['a'], case['b'], case['c'])
    S.painted(bmp, img, S.clip({(x, case['at']) for x in range(case['a'], case['b'] + 1)}, img), set(), case['c'], 'run')
    return True
