"""C29 charts: axes with ticks, grid and numbers; scatter plots with regression line; pies."""
import math
from fractions import Fraction
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, close, quiet
from .c15 import blank, compass
from .c16 import cells, compare, draw as text_layers, glyph, place
import pythonbmp.BITMAPlib as b
from pythonbmp import charts, fonts

P = Prop('C29', ['the origin of an axis is inside the bitmap, its limits lie to the right of and above it', 'a regression line is asked of points with two different x',
                 'the arrows of an axis are drawn as drawvec draws them (C05 decides those)', 'known finding KF1 (last pixel of 4-bit runs) is allowed for'])
value = st.integers(-40, 40) | st.integers(-200, 200).map(lambda v: v / 4)
stepv = st.integers(1, 25) | st.integers(1, 40).map(lambda v: v / 4)


def label(img, x, y, text, c):
    """Layers of a string in the 8x14 font."""
    out = []
    for ch, px, py in place(text, 'h', 1, x, y, 1, 0, 14):
        out += text_layers(img, cells('plain', px, py, glyph(fonts.font8x14, ch), 1), 1, 0, 0, [c])
    return out


def setin(v, lo, hi):
    return max(lo, min(hi, v))


@st.composite
def axes(draw):
    img = draw(M.images(maxw=110, maxh=90, minh=2))
    bits = img['bits']
    ox, oy = draw(st.integers(0, img['w'] - 1)), draw(st.integers(1, img['h'] - 1))
    return {'img': img, 'o': [ox, oy], 's': [draw(M.size(4, 45)), draw(M.size(4, 45))], 'lim': [draw(st.integers(ox + 1, img['w'])), draw(st.integers(0, oy - 1))],
            'v': [draw(value), draw(value)], 'vs': [draw(stepv), draw(stepv)], 'c': [draw(M.color(bits)) for _ in range(3)], 'grid': draw(st.booleans())}


@P.part(axes(), quick=500, rule='both axes have two ticks or more')
def axis_pictures(case):
    """Arrows from the origin to the limits, a tick and its number every step, grid lines through the ticks."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    (ox, oy), (sx, sy), (lx, ly) = case['o'], case['s'], case['lim']
    c, tc, gc = case['c']
    what = f'XYaxis at {case["o"]} steps {case["s"]} limits {case["lim"]} values {case["v"]} +{case["vs"]} grid {case["grid"]} on {img.w}x{img.h} {img.bits}-bit'
    got, _ = quiet(b.XYaxis, bmp, [ox, oy], [sx, sy], [lx, ly], list(case['v']), list(case['vs']), c, tc, case['grid'], gc)
    xs, ys = list(range(ox, lx, sx)), list(range(oy, ly, -sy))
    top = [v + (len(t) - 1) * s for v, t, s in zip(case['v'], (xs, ys), case['vs'])]
    same([list(q) for q in got], [[ox, oy], [sx, sy], [lx, ly], case['v'], case['vs'], top], what + ': returned')
    layers = []

    def line(pts, run, c):
        must, may = S.runs(img, [run]) if run else (S.clip(pts, img), set())
        layers.append((must, may, c))
    col = lambda x, y1, y2: {(x, y) for y in range(min(y1, y2), max(y1, y2) + 1)}
    if case['grid']:
        for x in xs:
            line(col(x, oy, ly), None, gc)
        for y in ys:
            line(None, (y, ox, lx), gc)
    for end in ([ox, ly], [lx, oy]):
        one, raw = blank(img.w, img.h, img.bits)
        quiet(b.drawvec, raw, [ox, oy], end, 10, 1)
        got = M.parse(raw)
        pts = {(x, y) for y in range(img.h) for x in range(img.w) if got.px[y][x]}
        shaft = S.clip(col(ox, oy, ly), img) if end[0] == ox else S.runs(img, [(oy, ox, lx)])[0]
        need(shaft <= pts, '%s: the arrow to %s has gaps', what, end)
        layers.append((pts, set(), c))
    for x in xs:
        line(col(x, oy, oy + 3), None, c)
    for y in ys:
        line(None, (y, ox - 3, ox), c)
    for i, y in enumerate(ys):
        t = str(case['v'][1] + i * case['vs'][1])
        layers += label(img, ox - 15 - 8 * (len(t) - 1), y - 4, t, tc)
    for i, x in enumerate(xs):
        layers += label(img, x - 4, oy + 7, str(case['v'][0] + i * case['vs'][0]), tc)
    compare(bmp, img, layers, what)
    return len(xs) > 1 and len(ys) > 1


@st.composite
def numbers(draw):
    img = draw(M.images(maxw=80, maxh=60))
    return {'img': img, 'v': [[draw(M.coord(img['w'], 8)), draw(M.coord(img['h'], 8))] for _ in range(draw(st.integers(0, 4)))], 'adj': [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))],
            'from': draw(value), 'step': draw(stepv), 'c': draw(M.color(img['bits'])), 'zero': draw(st.booleans()), 'last': draw(st.booleans()), 'right': draw(st.booleans())}


@P.part(numbers(), quick=400, rule='two numbers or more are shown')
def number_lines(case):
    """Each vertex gets its own number of the series, the first or last left out when asked; tick marks reach exactly their length."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    v, (ax, ay), c = case['v'], case['adj'], case['c']
    what = f'numbervert {v} {case["adj"]} from {case["from"]} step {case["step"]} {case["zero"]} {case["last"]} {case["right"]} on {img.w}x{img.h} {img.bits}-bit'
    b.numbervert(bmp, [list(p) for p in v], ax, ay, 1, case['from'], case['step'], 0, 0, c, fonts.font8x14, case['zero'], case['last'], case['right'])
    layers = []
    n = 0
    for i, (x, y) in enumerate(v):
        if i == 0 and case['zero'] or i == len(v) - 1 and case['last']:
            continue
        t = str(case['from'] + i * case['step'])
        layers += label(img, x + ax - (8 * (len(t) - 1) if case['right'] else 0), y + ay, t, c)
        n += 1
    compare(bmp, img, layers, what)
    bmp = M.to_bmp(img)
    layers = []
    quiet(b.vertlinevert, bmp, [list(p) for p in v], ax, ay, c)
    layers = [(S.clip({(x, j) for j in range(min(y, y + ax + ay), max(y, y + ax + ay) + 1)}, img), set(), c) for x, y in v]
    compare(bmp, img, layers, what + ': vertical ticks')
    bmp = M.to_bmp(img)
    quiet(b.horilinevert, bmp, [list(p) for p in v], ax, ay, c)
    layers = [(*S.runs(img, [(y, min(x, x + ax + ay), max(x, x + ax + ay))]), c) for x, y in v if max(x, x + ax + ay) >= 0 and min(x, x + ax + ay) < img.w]
    compare(bmp, img, layers, what + ': horizontal ticks')
    return n > 1


@st.composite
def scatters(draw):
    img = draw(M.images(maxw=90, maxh=80))
    bits = img['bits']
    ox, oy = draw(st.integers(0, img['w'] - 1)), draw(st.integers(0, img['h'] - 1))
    pts = [[draw(value), draw(value), draw(M.rare(st.integers(0, 8), st.integers(9, 40), 8)), draw(M.color(bits)), draw(st.booleans())] for _ in range(draw(M.rare(st.integers(1, 6), st.integers(7, 40), 12)))]
    v, vs = [draw(value), draw(value)], [draw(stepv), draw(stepv)]
    return {'img': img, 'o': [ox, oy], 's': [draw(M.size(4, 45)), draw(M.size(4, 45))], 'lim': [draw(st.integers(ox + 1, img['w'] + 8)), draw(st.integers(-6, oy - 1))],
            'v': v, 'vs': vs, 'pts': pts, 'line': draw(st.booleans()), 'c': draw(M.color(bits))}


@P.part(scatters(), quick=900, rule='a point is inside the limits, or a line crosses them')
def scatter_plots(case):
    """Every point within the limits is marked at its place, the others are reported; the regression line is the least squares line between the ends of the x axis as far as it is below the top."""
    img = M.from_case(case['img'])
    (ox, oy), (sx, sy), (lx, ly) = case['o'], case['s'], case['lim']
    nx, ny = len(range(ox, lx, sx)), len(range(oy, ly, -sy))
    F = Fraction
    v, vs = [F(q) for q in case['v']], [F(q) for q in case['vs']]
    top = [v[0] + (nx - 1) * vs[0], v[1] + (ny - 1) * vs[1]]
    info = (case['o'], case['s'], case['lim'], case['v'], case['vs'], tuple(case['v'][i] + (n - 1) * case['vs'][i] for i, n in enumerate((nx, ny))))
    what = f'XYscatterplot of {case["pts"]} in {info} on {img.w}x{img.h} {img.bits}-bit'
    screen = lambda x, y: (ox + (F(x) - v[0]) / vs[0] * sx, oy - (F(y) - v[1]) / vs[1] * sy)
    layers = []
    shown = 0
    for x, y, r, c, filled in case['pts']:
        p = screen(x, y)
        got, out = quiet(b.userdef2Dcooordsys2screenxy, x, y, info)
        if any(abs(float(q) - l) < 1e-6 and q != l for q, l in zip(p, (lx, ly))):
            return False
        if p[0] > lx or p[1] < ly:
            same(list(got), [-1, -1], f'{what}: place of {x},{y}')
            need(out != '', '%s: %s,%s is not reported', what, x, y)
            continue
        need(out == '' and abs(got[0] - p[0]) < 1e-6 and abs(got[1] - p[1]) < 1e-6, '%s: %s,%s is at %s, expected %s', what, x, y, got, [float(q) for q in p])
        if any(abs(abs(q - math.floor(q)) - F(1, 2)) < 1e-6 for q in p):
            return False
        X, Y = (round(q) for q in p)
        r = min(r, 5)
        if r > 1:
            layers.append((*S.runs(img, S.disc_runs(X, Y, r)), c) if filled else (S.clip(S.ring(X, Y, r), img), set(), c))
        else:
            layers.append((S.clip({(X, Y)}, img), set(), c))
        shown += 1
    bmp = M.to_bmp(img)
    quiet(b.XYscatterplot, bmp, [list(p) for p in case['pts']], info, False, case['c'])
    compare(bmp, img, layers, what)
    if not case['line'] or len({p[0] for p in case['pts']}) < 2:
        return shown > 0
    before = M.parse(bmp)
    bmp = M.to_bmp(img)
    quiet(b.XYscatterplot, bmp, [list(p) for p in case['pts']], info, True, case['c'])
    got = M.parse(bmp)
    n = len(case['pts'])
    X, Y = [F(p[0]) for p in case['pts']], [F(p[1]) for p in case['pts']]
    m = (n * sum(a * c for a, c in zip(X, Y)) - sum(X) * sum(Y)) / (n * sum(a * a for a in X) - sum(X) ** 2)
    k = (sum(Y) - m * sum(X)) / n
    lo, hi = v[0], top[0]

    lo, hi, ends = v[0], top[0], []
    for x in (lo, hi):
        p = screen(x, m * x + k)
        if abs(p[1] - ly) < 1e-6:
            return False
        if p[1] < ly:
            x = (top[1] - k) / m if m else None
            if x is None or not lo <= x <= hi:
                ends = None
                break
            p = screen(x, top[1])
        ends.append((float(setin(p[0], 0, img.w - 1)), float(setin(p[1], 0, img.h - 1))))
    c = M.mask(case['c'], img.bits)
    for y in range(img.h):
        for x in range(img.w):
            if got.px[y][x] != before.px[y][x]:
                need(ends and got.px[y][x] == c and S.seg_dist(x, y, *ends) < 1.6, '%s: regression line %s: (%s,%s) is %#x', what, ends, x, y, got.px[y][x])
    if ends:
        p, q = ends
        steps = int(max(abs(q[0] - p[0]), abs(q[1] - p[1])))
        flat4 = img.bits == 4 and abs(q[1] - p[1]) <= 1.5
        for i in range(steps + 1):
            x, y = (p[0] + (q[0] - p[0]) * i / steps, p[1] + (q[1] - p[1]) * i / steps) if steps else p
            near = [(math.floor(x) + a, math.floor(y) + e) for a in (-1, 0, 1, 2) for e in (-1, 0, 1, 2)]
            near = [t for t in near if math.hypot(t[0] - x, t[1] - y) < 1.6 and img.inside(*t)]
            if not (flat4 and x > max(p[0], q[0]) - 2):
                need(any(got.px[t[1]][t[0]] == c for t in near), '%s: the regression line %s has a gap at %.1f,%.1f', what, ends, x, y)
    return bool(shown or ends)


@st.composite
def pies(draw):
    bits = draw(st.sampled_from(M.BITS))
    r = draw(M.rare(st.integers(1, 40), st.integers(41, 140), 12))
    w, h = draw(st.integers(2 * r + 1, 2 * r + 12)), draw(st.integers(2 * r + 1, 2 * r + 12))
    d = [[draw(st.integers(0, 30) | st.integers(1, 400).map(lambda v: v / 8)), draw(M.color(bits))] for _ in range(draw(M.rare(st.integers(1, 6), st.integers(7, 40), 8)))]
    if draw(st.integers(0, 3)) == 0:
        d += [[sum(v for v, _ in d), draw(M.color(bits))]]
    if draw(st.integers(0, 5)) == 0 and len(d) > 1:
        d[1] = list(d[0])
    if not sum(v for v, _ in d):
        d[0][0] = 3
    return {'w': w, 'h': h, 'bits': bits, 'r': r, 'x': draw(st.integers(r, w - 1 - r)), 'y': draw(st.integers(r, h - 1 - r)), 'd': d, 'bg': draw(M.color(bits))}


@P.part(pies(), quick=500, rule='two slices or more wider than ten degrees')
def pie_charts(case):
    """Slices follow each other clockwise from the top, each as wide as its share and filled with its colour."""
    img, bmp = blank(case['w'], case['h'], case['bits'])
    bg = M.mask(case['bg'], img.bits)
    for row in img.px:
        row[:] = [bg] * img.w
    bmp = M.to_bmp(img)
    x, y, r, d = (case[k] for k in 'xyrd')
    what = f'piechart of {d} at ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    tot = sum(v for v, _ in d)
    close(charts.getdatalisttotal([list(p) for p in d]), tot, what + ': total', 1e-9, 0)
    res, out = quiet(b.piechart, bmp, x, y, r, [list(p) for p in d])
    alist, big = res
    alist2, big2 = charts.genpiechartdata([list(p) for p in d])
    same((alist2, big2), (alist, big), what + ': data')
    need(len(alist) == len(d), '%s: %s slices', what, len(alist))
    ends = []
    at = Fraction(0)
    for (v, c), a in zip(d, alist):
        w = Fraction(v) / Fraction(tot) * 360
        close(a[0], float(at), what + ': start', 1e-9, 1e-7)
        at += w
        close(a[1], float(at), what + ': end', 1e-9, 1e-7)
        same((a[2], a[3]), (c, v), what + ': slice')
        close(a[4], float(w / Fraction(18, 5)), what + ': share', 1e-9, 1e-7)
        ends.append((math.radians(a[0]), math.radians(a[1]), M.mask(c, img.bits)))
    need(big == -1 and all(a[4] < 50 for a in alist) or big >= 0 and alist[big][4] >= 50, '%s: largest is %s of %s', what, big, alist)
    got = M.parse(bmp)
    need(img.bits == 24 or got.pal == img.pal, '%s: palette changed', what)
    colours = {c for _, _, c in ends}
    for j in range(img.h):
        for i in range(img.w):
            g = got.px[j][i]
            dist = math.hypot(i - x, j - y)
            if dist > r + 1:
                need(g == bg, '%s: (%s,%s) outside is %#x', what, i, j, g)
                continue
            need(g == bg or g in colours, '%s: (%s,%s) is %#x', what, i, j, g)
            t = compass(i - x, j - y)
            gap = (2 + .035 * r) / dist if dist else 9
            for sa, ea, c in ends:
                if dist < r - 1.5 and sa + gap < t < ea - gap:
                    need(g == c, '%s: (%s,%s) at %.1f degrees is %#x, its slice is %#x', what, i, j, math.degrees(t), g, c)
    return sum(e - s > .17 for s, e, _ in ends) > 1
