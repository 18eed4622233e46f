"""C15 filled polygons, arcs and pies, Bezier curves and splines, squircles and orbs."""
import math
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, need, same, quiet, short
import pythonbmp.BITMAPlib as b
import pythonbmp.primitives2D as p2

P = Prop('C15', ['a filled polygon covers every row from its leftmost to its rightmost edge, so a concave one covers its notches too',
                 'pixels within one of an edge may or may not be painted'])


def blank(w, h, bits):
    img = M.Img(w, h, bits, None, M.defaultpal(bits) if bits < 24 else None)
    return img, M.to_bmp(img)


def edges(v):
    return [(v[i - 1], v[i]) for i in range(len(v))]


def hull_rows(v, w, h):
    """Rows of a polygon with integer corners -> (must, may): painted for sure, and allowed."""
    es = edges(v)
    near = set()
    ys = [p[1] for p in v]
    xs = [p[0] for p in v]
    for y in range(max(0, min(ys) - 1), min(h, max(ys) + 2)):
        for x in range(max(0, min(xs) - 1), min(w, max(xs) + 2)):
            if any(S.seg_dist(x, y, p, q) < 1 for p, q in es):
                near.add((x, y))
    must, may = set(), set()
    for y in range(max(0, min(ys)), min(h - 1, max(ys)) + 1):
        c = []
        for (x1, y1), (x2, y2) in es:
            if min(y1, y2) <= y <= max(y1, y2):
                c += [x1, x2] if y1 == y2 else [x1 + (x2 - x1) * (y - y1) / (y2 - y1)]
        if c:
            must |= {(x, y) for x in range(math.ceil(min(c)), math.floor(max(c)) + 1) if 0 <= x < w}
    must -= near
    for y in range(h):
        r = [x for x in range(w) if (x, y) in near]
        if r:
            may |= {(x, y) for x in range(min(r), max(r) + 1)}
    return must, may


@st.composite
def polygons(draw, edge=True):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(M.size(8, 34)), draw(M.size(8, 30))
    n = draw(M.rare(st.integers(3, 7), st.integers(8, 30), 12))
    pad = draw(st.sampled_from([0] * 8 + [3])) if edge else 0
    if draw(st.booleans()):     # convex: corners of an ellipse
        cx, cy = draw(st.integers(0, w - 1)), draw(st.integers(0, h - 1))
        a, c = min(cx, w - 1 - cx), min(cy, h - 1 - cy)
        t = sorted(draw(st.lists(st.integers(0, 359), min_size=n, max_size=n)))
        v = [[round(cx + a * math.cos(math.radians(k))), round(cy + c * math.sin(math.radians(k)))] for k in t]
    else:
        v = [[draw(M.coord(w, pad)), draw(M.coord(h, pad))] for _ in range(n)]
    return {'w': w, 'h': h, 'bits': bits, 'v': v, 'c': draw(M.wide(bits)), 'f': draw(st.sampled_from([0, 0, 0.25, -0.375]))}


@P.part(polygons(), quick=1200, rule='the polygon lies inside and covers at least four pixels away from its edges')
def filled_polygons(case):
    img, bmp = blank(case['w'], case['h'], case['bits'])
    bits = img.bits
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    v = case['v']
    fv = [[x + case['f'], y - case['f']] for x, y in v]
    what = f'polygon {v} in {img.w}x{img.h} {bits}-bit'
    _, out = quiet(b.plotpolyfill, bmp, fv, c)
    if not all(img.inside(*p) for p in v):
        M.expect(bmp, img, what + ' (refused)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    must, may = hull_rows(v, img.w, img.h)
    got = S.inked(bmp, img, c, what)
    need(must <= got, '%s: inside pixels left out: %s', what, short(sorted(must - got)))
    need(got <= may, '%s: outside pixels painted: %s', what, short(sorted(got - may)))
    for p in v:
        if bits != 4:
            need(tuple(p) in got, '%s: corner %s not painted', what, p)
    for y in {p[1] for p in got}:
        r = sorted(x for x, j in got if j == y)
        need(r[-1] - r[0] + 1 == len(r), '%s: row %s has a gap', what, y)
    return len(must) > 3


@st.composite
def quads(draw):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(M.size(8, 30)), draw(M.size(8, 30))
    p = [[draw(st.integers(0, w - 1)), draw(st.integers(0, h - 1))] for _ in range(3)]
    return {'w': w, 'h': h, 'bits': bits, 'p': p, 'c': draw(M.wide(bits))}


@P.part(quads(), quick=600, rule='the parallelogram lies inside and covers at least four pixels away from its edges')
def filled_parallelograms(case):
    img, bmp = blank(case['w'], case['h'], case['bits'])
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    p1, p2, p3 = case['p']
    p4 = [p3[0] + p2[0] - p1[0], p3[1] + p2[1] - p1[1]]
    if not img.inside(*p4):
        return False
    what = f'parallelogram {case["p"]} in {img.w}x{img.h} {img.bits}-bit'
    b.filledparallelogram(bmp, p1, p2, p3, c)
    got = S.inked(bmp, img, c, what)
    v = [p1, p2, p4, p3]
    es = edges(v)
    k = 0
    for y in range(img.h):
        for x in range(img.w):
            d = min(S.seg_dist(x, y, p, q) for p, q in es)
            inside = inconvex(x, y, v)
            if inside and d >= 2:
                # strokes follow one another along the first side: no hole of two pixels, no unpainted stretch
                need(any((x + i, y + j) in got for i in (-1, 0, 1) for j in (-1, 0, 1)), '%s: hole at (%s,%s)', what, x, y)
                k += 1
            elif not inside and d > 2:
                need((x, y) not in got, '%s: (%s,%s) painted outside', what, x, y)
    for p in v:
        need(tuple(p) in got or img.bits == 4, '%s: corner %s missing', what, p)
    return k > 3


def inconvex(x, y, v):
    s = 0
    for p, q in edges(v):
        c = (q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])
        if c:
            if s and (c > 0) != (s > 0):
                return False
            s = c
    return s != 0


@st.composite
def outlines(draw):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(M.size(4, 40)), draw(M.size(4, 36))
    n = draw(M.rare(st.integers(3, 6), st.integers(7, 20), 12))
    return {'w': w, 'h': h, 'bits': bits, 'v': [[draw(M.coord(w, draw(st.sampled_from([0, 0, 6])))), draw(M.coord(h, 3))] for _ in range(n)],
            'pen': draw(M.rare(st.integers(1, 5), st.integers(6, 30), 12)), 'c': draw(M.wide(bits))}


@P.part(outlines(), quick=500, rule='three different corners and something is painted')
def thick_outlines(case):
    """A thick polygon outline is the union of its sides, the last corner joined to the first."""
    img, bmp = blank(case['w'], case['h'], case['bits'])
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    v, r = case['v'], case['pen']
    b.thickplotpoly(bmp, [list(p) for p in v], r, c)
    must, may = set(), set()
    what = f'polygon {v} with a pen of {r} in {img.w}x{img.h} {img.bits}-bit'
    for p, q in edges(v):       # a side may be drawn from either end, which differs where a pixel is exactly between
        both = []
        for u, z in ((p, q), (q, p)):
            ref = M.to_bmp(img)
            b.thickroundline(ref, list(u), list(z), r, c)
            both.append(S.inked(ref, img, c, what))
        must |= both[0] & both[1]
        may |= both[0] | both[1]
    got = S.inked(bmp, img, c, what)
    need(must <= got, '%s: parts of its sides are missing: %s', what, short(sorted(must - got)))
    need(got <= may, '%s: painted off its sides: %s', what, short(sorted(got - may)))
    return len({tuple(p) for p in v}) > 2 and bool(got)


# ---- arcs -------------------------------------------------------------------

def compass(dx, dy):
    return math.atan2(dx, -dy) % (2 * math.pi)


@st.composite
def arcs(draw):
    bits = draw(st.sampled_from(M.BITS))
    r = draw(st.one_of(st.integers(1, 30), M.radius(3, 60, 160)))
    w, h = draw(st.integers(2 * r + 1, 2 * r + 9)), draw(st.integers(2 * r + 1, 2 * r + 9))
    a = draw(st.one_of(st.integers(0, 359), st.sampled_from([0, 90, 180, 270])))
    e = draw(st.one_of(st.integers(a, 360), st.just(360), st.integers(a, min(360, a + 15))))
    return {'w': w, 'h': h, 'bits': bits, 'r': r, 'x': draw(st.integers(r, w - 1 - r)), 'y': draw(st.integers(r, h - 1 - r)), 'a': a, 'e': e,
            'c': draw(M.color(bits)), 'f': draw(M.color(bits)), 'fill': draw(st.booleans()), 'out': draw(st.booleans())}


@P.part(arcs(), quick=700, rule='the arc spans at least five degrees')
def arcs_and_pies(case):
    """The arc paints the circle between its angles (clockwise from the top) and the two spokes; a filled one of at most half a turn paints its sector."""
    img, bmp = blank(case['w'], case['h'], case['bits'])
    x, y, r, a, e = (case[k] for k in 'xyrae')
    c, f = case['c'] or 1, case['f'] or 1
    fill = case['fill']
    what = f'arc ({x},{y}) r={r} {a}..{e} degrees {"filled" if fill else ""} in {img.w}x{img.h} {img.bits}-bit'
    b.drawarc(bmp, x, y, r, a, e, c, case['out'], f, fill)
    vert = p2.arcvert(x, y, r, a, e)
    outl = case['out']
    if not fill and not outl:
        M.expect(bmp, img, what + ' with neither outline nor filling')
        return False
    pts = {tuple(p) for p in vert}
    im = M.parse(bmp)
    got = {(i, j) for j in range(im.h) for i in range(im.w) if im.px[j][i]}
    if im.pal != img.pal:
        raise Violation(what + ': palette changed')
    for i, j in got:
        want = (c,) if outl and (i, j) in pts else (f,)
        need(im.px[j][i] in want and (fill or (i, j) in pts), '%s: (%s,%s) is %s', what, i, j, im.px[j][i])
    if outl:
        need(pts <= got, '%s: arc vertices not painted: %s', what, short(sorted(pts - got)))
    ra, re = math.radians(a), math.radians(e)
    ring = S.ring(x, y, r)
    tips = [(x + r * math.sin(t), y - r * math.cos(t)) for t in (ra, re)]
    on = set()
    for p in ring:
        t = compass(p[0] - x, p[1] - y)
        if ra + 1e-6 < t < re - 1e-6:
            on.add(p)
            need(p in got or img.bits == 4 and not outl, '%s: %s at %.1f degrees not painted', what, p, math.degrees(t))
    wide = e - a > 180
    # painted pixels: on the arc, near a spoke, or inside the sector (or its rows) when filled
    for p in got:
        t = compass(p[0] - x, p[1] - y)
        inside = ra - .04 <= t <= re + .04 or t + 2 * math.pi - .04 <= re or p == (x, y)
        if p in ring and (ra - 1e-6 <= t <= re + 1e-6):
            continue
        spoke = min(S.seg_dist(p[0], p[1], (x, y), q) for q in tips)
        lim = 2.5 + .035 * r         # the spoke ends at the last pixel of the circle before the angle, up to 1.5 pixels off
        if spoke <= lim:
            continue
        need(fill and (wide or inside) and math.hypot(p[0] - x, p[1] - y) <= r + 1, '%s: %s painted', what, p)
    if e > a and on:
        for q in tips:
            # some pixel every step along the spoke
            for k in range(1, r - 2):
                u = (x + (q[0] - x) * k / r, y + (q[1] - y) * k / r)
                need(any(math.hypot(g - u[0], h - u[1]) <= 1.3 + 1.5 * k / r + .035 * k for g, h in near(u, 3 + int(.04 * k)) if (g, h) in got), '%s: no spoke at %s', what, u)
        if fill and not wide:
            for j in range(y - r, y + r + 1):
                for i in range(x - r, x + r + 1):
                    d = math.hypot(i - x, j - y)
                    t = compass(i - x, j - y)
                    if 2 < d < r - 1.5 and ra + (2.6 + .035 * r) / d < t < re - (2.6 + .035 * r) / d:
                        need(im.px[j][i] in ((f, c) if outl else (f,)), '%s: (%s,%s) inside the sector is %s', what, i, j, im.px[j][i])
    return e - a >= 5


def near(u, k):
    cx, cy = round(u[0]), round(u[1])
    return [(cx + i, cy + j) for i in range(-k, k + 1) for j in range(-k, k + 1)]


# ---- Bezier curves and splines ------------------------------------------------

def bezier(pts, u):
    q = [tuple(p) for p in pts]
    while len(q) > 1:
        q = [((1 - u) * s[0] + u * t[0], (1 - u) * s[1] + u * t[1]) for s, t in zip(q, q[1:])]
    return q[0]


def spread(pts, wrap=False):
    n = len(pts)
    m = 0
    for i in range(n if wrap else n - 2):
        p, q, r = pts[i % n], pts[(i + 1) % n], pts[(i + 2) % n]
        m = max(m, math.hypot(p[0] - 2 * q[0] + r[0], p[1] - 2 * q[1] + r[1]))
    return m


@st.composite
def controls(draw, lo=2):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(M.size(12, 60)), draw(M.size(12, 50))
    n = draw(M.rare(st.integers(lo, 7), st.integers(8, 24), 12))
    return {'w': w, 'h': h, 'bits': bits, 'p': [[draw(st.integers(0, w - 1)), draw(st.integers(0, h - 1))] for _ in range(n)],
            'pen': draw(M.rare(st.integers(0, 4), st.integers(5, 24), 15)), 'c': draw(M.wide(bits))}


def follows(pts, curve, tol, what, lead=(), tail=0, gaps=False):
    """Every point is within tol of the sampled curve (or its lead) and every sample, but for the tail, within tol of a point."""
    allow = list(lead) + list(curve)
    es = list(zip(allow, allow[1:])) or [(allow[0], allow[0])]
    if tail:
        curve = curve[:-tail]
    for x, y in pts:
        d = min(S.seg_dist(x, y, p, q) for p, q in es)
        need(d <= tol, '%s: (%s,%s) is %.2f off the curve', what, x, y, d)
    for u in curve:
        d = min(math.hypot(u[0] - x, u[1] - y) for x, y in pts)
        need(d <= tol + .5, '%s: nothing drawn at (%.1f,%.1f)', what, *u)
    need(gaps or S.connected(pts), '%s: the curve has a gap', what)


def stroke(bmp, img, pts, pen, c, what):
    """The bitmap shows the points drawn with a round pen."""
    if pen < 2:
        S.painted(bmp, img, {p for p in pts if img.inside(*p)}, set(), c, what)
    else:
        must, may = S.discs(img, pts, pen)
        S.painted(bmp, img, must, may, c, what)


@P.part(controls(), quick=500, rule='at least three control points, not all on one spot')
def bezier_curves(case):
    img, bmp = blank(case['w'], case['h'], case['bits'])
    p = case['p']
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    what = f'Bezier curve {p}'
    pts = {tuple(q) for q in p2.beziercurvevert(p, False, False)}
    need(tuple(p[0]) in pts and tuple(p[-1]) in pts, '%s: does not join its first and last control point', what)
    k = 80
    follows(pts, [bezier(p, i / k) for i in range(k + 1)], 1.5 + spread(p) / 128, what)
    same({tuple(q) for q in p2.iterbeziercurve(p)}, pts, what)
    b.beziercurve(bmp, p, case['pen'], c)
    stroke(bmp, img, pts, case['pen'], c, f'{what} with pen {case["pen"]} in {img.w}x{img.h} {img.bits}-bit')
    return len(p) > 2 and len(pts) > 1


def bspline(p0, p1, p2, p3, u):
    w = ((1 - u) ** 3 / 6, (3 * u ** 3 - 6 * u * u + 4) / 6, (-3 * u ** 3 + 3 * u * u + 3 * u + 1) / 6, u ** 3 / 6)
    return tuple(sum(a * q[i] for a, q in zip(w, (p0, p1, p2, p3))) for i in (0, 1))


@st.composite
def splines(draw):
    c = draw(controls(4))
    c['closed'] = draw(st.booleans())
    c['back'] = draw(st.booleans())
    return c


@P.part(splines(), quick=500, rule='the control points are not all on one spot')
def bsplines(case):
    """Points of a uniform cubic B-spline: the closed one goes all the way round, an open one ends at its last control point."""
    img, bmp = blank(case['w'], case['h'], case['bits'])
    p = case['p']
    n = len(p)
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    closed, back = case['closed'], case['back']
    what = f'B-spline {p} closed={closed} curveback={back}'
    pts = {tuple(q) for q in p2.bsplinevert(p, closed, back)}
    idx = (lambda k: k % n) if back else (lambda k: min(k, n - 1))
    curve = []
    m = 40
    for i in range(2, n + (2 if closed else 0)):
        curve += [bspline(*(p[idx(i + j)] for j in range(4)), u / m) for u in range(m)]
    tol = 1.5 + spread([p[idx(k)] for k in range(n + 5)]) / 128 + .3
    lead = [bspline(*(p[idx(1 + j)] for j in range(4)), u / m) for u in range(m - m // n, m)]
    follows(pts, curve, tol + 1, what, lead, m // 4)
    if not back:
        need(tuple(p[-1]) in pts or min(math.hypot(x - p[-1][0], y - p[-1][1]) for x, y in pts) < 1.5, '%s: does not reach the last point', what)
    same({tuple(q) for q in p2.iterbspline(p, closed, back)}, pts, what)
    b.bspline(bmp, p, case['pen'], c, closed, back)
    stroke(bmp, img, pts, case['pen'], c, f'{what} with pen {case["pen"]} in {img.w}x{img.h} {img.bits}-bit')
    return len(pts) > 1


# ---- squircles, orbs, brushes ---------------------------------------------------

@st.composite
def rounds(draw):
    bits = draw(st.sampled_from(M.BITS))
    r = draw(M.radius(1, 24, 140))
    w, h = draw(st.integers(2 * r + 1, 2 * r + 12)), draw(st.integers(2 * r + 1, 2 * r + 12))
    return {'w': w, 'h': h, 'bits': bits, 'r': r, 'x': draw(st.integers(r, w - 1 - r)), 'y': draw(st.integers(r, h - 1 - r)), 'c': draw(M.wide(bits)),
            'f': [draw(st.integers(0, 20)) / 20 for _ in range(3)]}


@P.part(rounds(), quick=250, rule='radius at least 3')
def squircles(case):
    img, bmp = blank(case['w'], case['h'], case['bits'])
    x, y, r = case['x'], case['y'], case['r']
    c = case['c'] if M.mask(case['c'], case['bits']) else 1
    what = f'squircle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    b.squircle(bmp, x, y, r, c)
    got = S.inked(bmp, img, c, what)
    curve = []
    for k in range(240):
        t = math.radians(k * 1.5)
        s = lambda v: math.copysign(abs(v) ** .5, v)
        curve.append((x + r * s(math.cos(t)), y + r * s(math.sin(t))))
    follows(got, curve + curve[:1], 2.0, what, gaps=img.bits == 4)     # known finding KF1: 4-bit runs
    for q in ((x + r, y), (x - r, y), (x, y + r), (x, y - r)):
        need(q in got or img.bits == 4, '%s: tip %s missing', what, q)
    return r >= 3


def shade(img, v, f, lo, hi, seen):
    for l in range(int(lo), int(hi) + 2):
        k = (v, l)
        if k not in seen:
            seen[k] = M.colour_ok(img, v, [min(l, 255) * g for g in f], 2.001)
        if seen[k]:
            return True
    return False


@P.part(rounds(), quick=200, rule='radius at least 4')
def orbs(case):
    """An orb is brightest in its inner half and darkens evenly to its rim."""
    img, bmp = blank(case['w'], case['h'], case['bits'])
    x, y, r = case['x'], case['y'], case['r']
    f = case['f']
    j = r >> 1
    seen = {}
    what = f'orb ({x},{y}) r={r} tint {f} in {img.w}x{img.h} {img.bits}-bit'
    b.orb(bmp, x, y, r, f)
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (img.w, img.h, img.bits), '%s: geometry changed', what)
    if got.pal != img.pal:
        raise Violation(what + ': palette changed')
    for q in range(img.h):
        for p in range(img.w):
            d = math.hypot(p - x, q - y)
            v = got.px[q][p]
            if d > r + 1.6 + (1 if r > 2 else 0):
                need(v == 0, '%s: (%s,%s) outside painted', what, p, q)
                continue
            if d <= j - 2:
                lo = hi = 255
            elif d <= r - 1 and j > 1:
                lo, hi = 255 * (r - d - 4) / j, 255 * (r - d + 4) / j
            else:
                continue
            lo, hi = max(0, min(255, lo)), max(0, min(255, hi))
            need(shade(img, v, f, lo, hi, seen), '%s: (%s,%s) at distance %.1f is %#x, not of luminosity %d..%d', what, p, q, d, v, lo, hi)
    return r >= 4


@st.composite
def pens(draw):
    img = draw(M.images(maxw=24, maxh=20))
    return {'img': img, 'v': [draw(M.coord(img['w'], 6)), draw(M.coord(img['h'], 6))], 'r': draw(M.radius(0, 8, 200)), 'c': draw(M.wide(img['bits']))}


@P.part(pens(), quick=600, rule='the pen touches the bitmap')
def round_pen(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    v, r, c = case['v'], case['r'], case['c']
    what = f'pen at {v} radius {r} in {img.w}x{img.h} {img.bits}-bit'
    b.roundpen(bmp, v, r, c)
    if r < 2:
        p = {tuple(v)} if img.inside(*v) else set()
        S.painted(bmp, img, p, set(), c, what)
        return bool(p)
    must, may = S.discs(img, [v], r)
    S.painted(bmp, img, must, may, c, what)
    return bool(must)
