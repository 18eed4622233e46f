"""C25 point generators: lines, circles, ellipses, polygons, plane curves, neighbours and bounds."""
import math
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, need, same, close, quiet, short
import pythonbmp.BITMAPlib as b
import pythonbmp.primitives2D as p2
import pythonbmp.mathlib as ml
import pythonbmp.solids3D as s3

P = Prop('C25', ['curve points may be rounded or cut to integers: each is within one of its exact place on both axes',
                 'curves generated up to a limit may hold one point more or less at the limit (the angle is accumulated in floating point)'])

ints = M.rare(st.integers(-60, 60), st.integers(-700, 700), 20)


def tset(pts):
    return {tuple(p) for p in pts}


@P.part(st.tuples(ints, ints, ints, ints), quick=1500, rule='the ends differ')
def lines(case):
    x1, y1, x2, y2 = case
    pts = [tuple(p) for p in p2.iterline([x1, y1], [x2, y2])]
    what = f'line {case}'
    S.check_line(set(pts), (x1, y1), (x2, y2), what)
    same(set(map(tuple, p2.lineseg([x1, y1], [x2, y2]))), set(pts), what)
    for a, c in zip(pts, pts[1:]):
        need(max(abs(a[0] - c[0]), abs(a[1] - c[1])) <= 1, '%s: jump from %s to %s', what, a, c)
    need(pts[-1] == (x2, y2) and max(abs(pts[0][0] - x1), abs(pts[0][1] - y1)) <= 1, '%s: runs from %s to %s', what, pts[0], pts[-1])
    return (x1, y1) != (x2, y2)


@P.part(st.tuples(ints, ints, ints, ints, ints, ints), quick=400, rule='the corners are distinct')
def parallelograms(case):
    """Strokes start on the side p1-p3 and end on the side from p2, in step."""
    a, c, d = case[:2], case[2:4], case[4:]
    sh = (c[0] - a[0], c[1] - a[1])
    k = 0
    first = set()
    for u, v in p2.iterparallelogram(list(a), list(c), list(d)):
        same(tuple(v), (u[0] + sh[0], u[1] + sh[1]), f'stroke of parallelogram {case} from {tuple(u)}')
        first.add(tuple(u))
        k += 1
    same(first, tset(p2.iterline(list(a), list(d))), f'starts of the strokes of parallelogram {case}')
    return len({tuple(a), tuple(c), tuple(d)}) == 3


@P.part(st.tuples(ints, ints, M.radius(0, 120)), quick=500, rule='radius at least 2')
def circles(case):
    x, y, r = case
    what = f'circle {tuple(case)}'
    ring = S.ring(x, y, r)
    same(tset(p2.itercircle(x, y, r)), ring, what)
    same(tset(p2.circlevert(x, y, r)), ring, what)
    quad = {p for p in S.ring(0, 0, r) if p[0] >= 0 and p[1] >= 0}
    same(tset(p2.itercirclepart(r)), quad, f'quadrant of radius {r}')
    rows = [tuple(p) for p in p2.itercirclepartlineedge(r)]
    same(sorted(q for _, q in rows), sorted(set(q for _, q in quad)), f'rows of radius {r}')
    for p in rows:
        same(p[0], max(i for i, j in quad if j == p[1]), f'row end {p} of radius {r}')
    cols = [tuple(p) for p in p2.itercirclepartvertlineedge(r)]
    same(sorted(q for q, _ in cols), sorted(set(q for q, _ in quad)), f'columns of radius {r}')
    for p in cols:
        need(p in quad, 'column end %s of radius %s is off the circle', p, r)
    return r > 1


@P.part(st.tuples(ints, ints, M.radius(0, 60, 260), M.radius(0, 60, 260), st.integers(-720, 720)), quick=600, rule='both axes at least 2')
def ellipses(case):
    x, y, bb, a, deg = case
    what = f'ellipse at ({x},{y}) with half axes {a} (x) and {bb} (y)'
    pts = tset(p2.iterellipse(x, y, bb, a))
    S.check_ellipse(pts, x, y, a, bb, what)
    same(tset(p2.ellipsevert(x, y, bb, a)), pts, what)
    same(tset(p2.iterellipsepart(bb, a)), {(i - x, j - y) for i, j in pts if i >= x and j >= y}, what + ', first quadrant')
    s, c = math.sin(math.radians(deg)), math.cos(math.radians(deg))
    rot = tset(p2.iterellipserot(x, y, bb, a, deg))
    for i, j in rot:        # turned back, every point is near a point of the plain ellipse, for one sense of rotation
        d = []
    for sg in (1, -1):
        ok = all(min((i - x - (u * c - sg * v * s)) ** 2 + (j - y - (u * s * sg + v * c)) ** 2 for u, v in ((p[0] - x, p[1] - y) for p in pts)) < .51 for i, j in rot)
        if ok:
            break
    need(ok, '%s turned by %s degrees has points off the turned curve', what, deg)
    need(len(rot) >= len(pts) * .6, '%s turned by %s degrees has only %s of %s points', what, deg, len(rot), len(pts))
    return a > 1 and bb > 1


@P.part(st.tuples(ints, ints, M.rare(st.integers(1, 200), st.integers(200, 2000), 20), M.rare(st.integers(3, 40), st.integers(41, 400), 16), st.integers(-400, 400)), quick=600, rule='more than four sides')
def regular_polygons(case):
    x, y, r, n, a = case
    what = f'regular polygon of {n} sides, radius {r} at ({x},{y}) turned by {a}'
    v = p2.floatregpolygonvert(x, y, r, n, a)
    same(len(v), n, what + ': number of corners')
    for k, p in enumerate(v):
        t = math.radians(a + k * 360 / n)
        close(list(p), [x - r * math.sin(t), y - r * math.cos(t)], f'{what}: corner {k}', ab=1e-6)
    w = p2.regpolygonvert(x, y, r, n, a)
    same(len(w), n, what + ': number of corners')
    for k, p in enumerate(w):
        need(all(isinstance(q, int) for q in p) and max(abs(p[0] - v[k][0]), abs(p[1] - v[k][1])) <= .5 + 1e-6, '%s: rounded corner %s is %s', what, k, p)
    return n > 4


# ---- parametric curves ---------------------------------------------------------

fl = lambda lo, hi: st.integers(lo * 20, hi * 20).map(lambda k: k / 20)
E = lambda t: complex(math.cos(t), math.sin(t))


def spiro(t, r, l, k):
    return r * ((1 - k) * E(t) + l * k * E(-t * (1 - k) / k))


CURVES = {
    'spirograph': (p2.spirographvert, st.tuples(M.radius(1, 90), fl(0, 1), M.rare(st.integers(1, 19), st.integers(1, 80), 4).map(lambda v: v / 20)), spiro),
    'lissajouscurve': (p2.lissajouscurvevert, st.tuples(fl(0, 60), fl(0, 60), fl(0, 7), fl(0, 7), fl(-3, 3)),
                       lambda t, a, c, d, e, f: complex(a * math.cos(d * t + f), c * math.sin(e * t))),
    'circleinvolute': (p2.circleinvolutevert, st.tuples(fl(0, 6)), lambda t, a: a * E(t) * (1 - 1j * t)),
    'epicycloid': (p2.epicycloidvert, st.tuples(M.radius(1, 60), M.radius(1, 60)), lambda t, a, c: (a + c) * E(t) - c * E((a / c + 1) * t)),
    'hypotrochoid': (p2.hypotrochoidvert, st.tuples(M.radius(1, 60), M.radius(1, 60), M.radius(0, 60)),
                     lambda t, a, c, d: (a - c) * E(t) + d * E(-(a - c) / c * t)),
}


@st.composite
def curves(draw, n):
    c = {'n': n, 'x': draw(ints), 'y': draw(ints), 'a': list(draw(CURVES[n][1])), 'd': draw(st.sampled_from([1 / 40, .1, .05, .3, 1, .017])),
         'lim': draw(st.one_of(st.integers(0, 40).map(lambda k: k / 4), st.just(2 * math.pi)))}
    if draw(st.integers(0, 5)) == 0:        # many turns
        c['d'], c['lim'] = draw(st.sampled_from([.3, 1, 7.3])), draw(st.integers(20, 2000))
    return c


@P.part([curves(n) for n in sorted(CURVES)], quick=1200, rule='at least ten points')
def parametric_curves(case):
    fn, _, eq = CURVES[case['n']]
    x, y, a, d, lim = case['x'], case['y'], case['a'], case['d'], case['lim']
    v = fn(x, y, *a, d, lim)
    what = f'{case["n"]} at ({x},{y}) of {a} by {d:g} up to {lim:g}'
    n = math.ceil(lim / d)
    need(abs(len(v) - n) <= (1 if abs(lim / d - round(lim / d)) < 1e-6 else 0), '%s: %s points, expected %s', what, len(v), n)
    it = getattr(p2, 'iter' + case['n'])
    same([tuple(p) for p in it(x, y, *a, d, lim)], [tuple(p) for p in v], what + ', iterated')
    for k, p in enumerate(v):
        z = eq(k * d, *a)
        need(abs(p[0] - x - z.real) <= .5001 and abs(p[1] - y - z.imag) <= .5001 and isinstance(p[0], int) and isinstance(p[1], int),
             '%s: point %s is %s, expected (%.2f,%.2f)', what, k, p, x + z.real, y + z.imag)
    return len(v) >= 10


def spow(v, e):
    return math.copysign(abs(v) ** e, v) if abs(v) > 1e-12 else 0.0


def cornu(x, y, r):
    out = []
    z = complex(x, y)
    k = math.radians(1)
    for i in range(360):
        z += r * k * E((i * k) ** 2)
        out.append(z)
    return out


def heart(x, y, s):
    return [complex(x + s * 16 * math.sin(t) ** 3, y - s * (13 * math.cos(t) - 5 * math.cos(2 * t) - 2 * math.cos(3 * t) - math.cos(4 * t)))
            for t in map(math.radians, range(360))]


FIXED = {
    'superellipse': (st.tuples(M.radius(0, 90), M.radius(0, 90), st.sampled_from([.5, 1, 1.5, 2, 3, 4, 7]), st.sampled_from([.5, 1, 2, 2.5, 4])),
                     lambda x, y, a, c, m, n: [complex(x + a * spow(math.cos(t), 2 / m), y + c * spow(math.sin(t), 2 / n)) for t in map(math.radians, range(360))]),
    'squircle': (st.tuples(M.radius(0, 90)), lambda x, y, r: [complex(x + r * spow(math.cos(t), .5), y + r * spow(math.sin(t), .5)) for t in map(math.radians, range(360))]),
    'gearcurve': (st.tuples(M.radius(1, 80), st.integers(1, 20), M.rare(st.integers(1, 15), st.integers(16, 90), 16)),
                  lambda x, y, a, c, n: [complex(x, y) + (a + c * math.tanh(c * math.sin(n * t))) * E(t) for t in map(math.radians, range(360))]),
    'cornuspiral': (st.tuples(M.radius(0, 90)), cornu),
    'heartcurve': (st.tuples(M.rare(st.integers(0, 8), st.integers(9, 60), 12)), heart),
    'flower': (st.tuples(M.radius(0, 80), M.rare(st.integers(1, 9), st.integers(10, 40), 16), st.integers(-360, 360)),
               lambda x, y, r, n, rot: [complex(x, y) - math.cos(n / 2 * t) ** 2 * r * complex(math.sin(t + math.radians(rot)), math.cos(t + math.radians(rot)))
                                        for t in (math.radians(k / n) for k in range(360 * n))]),
}


@st.composite
def fixed(draw, n):
    return {'n': n, 'x': draw(ints), 'y': draw(ints), 'a': list(draw(FIXED[n][0]))}


@P.part([fixed(n) for n in sorted(FIXED)], quick=800, rule='the points are not all the same')
def closed_curves(case):
    _, eq = FIXED[case['n']]
    x, y, a = case['x'], case['y'], case['a']
    v = getattr(p2, case['n'] + 'vert')(x, y, *a)
    want = eq(x, y, *a)
    what = f'{case["n"]} at ({x},{y}) of {a}'
    same(len(v), len(want), what + ': number of points')
    same([tuple(p) for p in getattr(p2, 'iter' + case['n'])(x, y, *a)], [tuple(p) for p in v], what + ', iterated')
    for k, (p, z) in enumerate(zip(v, want)):
        need(abs(p[0] - z.real) < 1.001 and abs(p[1] - z.imag) < 1.001 and isinstance(p[0], int) and isinstance(p[1], int),
             '%s: point %s is %s, expected about (%.2f,%.2f)', what, k, p, z.real, z.imag)
    return len(tset(v)) > 1


@P.part(st.tuples(ints, ints, M.radius(2, 90), M.radius(1, 89)), quick=300, rule='the egg has at least four points')
def egg_curves(case):
    """Two points per column, mirrored, at the height of the egg curve sqrt((a-b-2x+sqrt(4bx+(a-b)^2))x/2)."""
    x, y, a, c = case
    if c >= a:
        same(list(p2.eggcurvevert(x, y, a, c)), [], f'egg {tuple(case)}')
        return False
    what = f'egg at ({x},{y}) of {a}, {c}'
    v = p2.eggcurvevert(x, y, a, c)
    same([tuple(p) for p in p2.itereggcurve(x, y, a, c)], [tuple(p) for p in v], what)
    cols = {}
    for p in v:
        cols.setdefault(p[0] - x + (a >> 1), []).append(p[1] - y)
    for k in range(a):
        q = a - c - 2 * k + math.sqrt(4 * c * k + (a - c) ** 2)
        h = math.sqrt(max(0, q) * k / 2)
        got = cols.pop(k, [])
        if not got:
            need(h < 1.001, '%s: column %s is missing, height %.2f', what, k, h)
        else:
            need(sorted(got) == [-max(got), max(got)] and abs(max(got) - h) < 1.001, '%s: column %s has %s, height %.2f', what, k, got, h)
    same(cols, {}, what + ': columns beyond the egg')
    return len(v) > 3


@P.part(st.tuples(ints, ints, M.rare(st.integers(1, 12), st.integers(13, 90), 12), st.sampled_from([1, 2, 3, 1, 2, 3, .5, .25, 1.5, 0]), M.rare(st.integers(0, 8), st.integers(9, 40), 12)), quick=300, rule='at least one turn')
def square_spirals(case):
    """Right, down, left, up: every stroke is longer than the one before by the increment, which grows after every turn."""
    x, y, s, g, n = case
    v = [tuple(p) for p in p2.spiralcontrolpointsvert(*case)]
    want = [(x, y)]
    inc = step = s
    for _ in range(n):
        for k, (dx, dy) in enumerate(((1, 0), (0, 1), (-1, 0), (0, -1))):
            px, py = want[-1]
            want.append((px + dx * step, py + dy * step))
            step += inc
        inc *= g
    same(v, want, f'square spiral {tuple(case)}')
    return n > 0


# ---- small helpers -------------------------------------------------------------

@P.part(st.tuples(M.size(1, 12), M.size(1, 12), M.rare(st.integers(-2, 13), st.integers(14, 300), 16), M.rare(st.integers(-2, 13), st.integers(14, 300), 16), st.booleans()), quick=600, rule='the point is inside')
def neighbors(case):
    w, h, x, y, cen = case
    got = [tuple(p) for p in p2.itergetneighbors([x, y], w, h, cen)]
    same(sorted(tuple(p) for p in p2.getneighborlist([x, y], w, h, cen)), sorted(got), 'neighbor list')
    if not (0 <= x < w and 0 <= y < h):
        return False
    want = [(x + i, y + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i or j or cen) and 0 <= x + i < w and 0 <= y + j < h]
    same(sorted(got), sorted(want), f'neighbors of ({x},{y}) in {w}x{h}')
    return True


@P.part(st.tuples(ints, ints, ints, ints), quick=300, rule='always')
def rectangles(case):
    x1, y1, x2, y2 = case
    same(tuple(p2.sortrecpoints(*case)), (min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)), f'sorted corners {case}')
    v = [tuple(p) for p in p2.recvert(*case)]
    same(v, [(x1, y1), (x2, y1), (x2, y2), (x1, y2)], f'corners {case}')
    bb = p2.rectboundarycoords(v)
    same([tuple(q) for q in bb], [(min(x1, x2), min(y1, y2)), (max(x1, x2), max(y1, y2))], f'bounds of {v}')
    same(sorted(tset(ml.mirror1stquad(x1, y1, (x2, y2)))), sorted({(x1 + i * x2, y1 + j * y2) for i in (1, -1) for j in (1, -1)}), f'mirrored {case}')
    return True


@P.part(st.tuples(st.lists(st.tuples(st.integers(-3, 12), st.integers(-3, 12)), min_size=1, max_size=6), st.integers(-2, 4), st.integers(-2, 4), st.integers(4, 11), st.integers(4, 11)),
        quick=600, rule='some point is inside')
def bounds(case):
    """A point counts as inside strictly between the limits; a list when every point is."""
    pts, x0, y0, x1, y1 = case
    ins = [x0 < x < x1 and y0 < y < y1 for x, y in pts]
    for (x, y), k in zip(pts, ins):
        same(bool(p2.isinrectbnd(x, y, x0, y0, x1, y1)), k, f'({x},{y}) inside {(x0, y0, x1, y1)}')
    same(bool(p2.listinrecbnd(pts, x0, y0, x1, y1)), all(ins), f'all of {pts} inside {(x0, y0, x1, y1)}')
    xs, ys = zip(*pts)
    same([tuple(q) for q in p2.rectboundarycoords(pts)], [(min(xs), min(ys)), (max(xs), max(ys))], f'bounds of {pts}')
    return any(ins)


@P.part(st.tuples(M.rare(st.integers(-5, 30), st.integers(0, 300), 20), st.integers(-5, 30), M.radius(0, 14), M.radius(0, 14), M.size(1, 26), M.size(1, 26)), quick=600, rule='the shape fits or misses by one')
def fits(case):
    """A circle or ellipse fits when its tips lie strictly between the limits given (one outside the bitmap on each side)."""
    x, y, bb, a, w, h = case
    r = a
    inside = x - r > -1 and x + r < w and y - r > -1 and y + r < h
    same(bool(p2.entirecircleisinboundary(x, y, -1, w, -1, h, r)), inside, f'circle ({x},{y}) r={r} in {w}x{h}')
    ins2 = x - a > -1 and x + a < w and y - bb > -1 and y + bb < h
    same(bool(p2.entireellipseisinboundary(x, y, -1, w, -1, h, bb, a)), ins2, f'ellipse ({x},{y}) {bb},{a} in {w}x{h}')
    return inside or ins2 or min(x - r, w - 1 - x - r, y - r, h - 1 - y - r) == -1


@P.part(st.tuples(ints, ints, ints, st.one_of(st.sampled_from([-7, -3, -1, 1, 2, 5, 9]), st.integers(-60, 60).filter(bool))), quick=400, rule='at least two points')
def tick_points(case):
    """Points from one end up to, not including, the other, step apart."""
    at, a, c, d = case
    want = []
    k = a
    while (k < c) if d > 0 else (k > c):
        want.append(k)
        k += d
    same([tuple(p) for p in p2.horizontalvert(at, a, c, d)], [(k, at) for k in want], f'horizontal ticks {case}')
    same([tuple(p) for p in p2.verticalvert(at, a, c, d)], [(at, k) for k in want], f'vertical ticks {case}')
    return len(want) > 1


# ---- flowers on bitmaps ----------------------------------------------------------

@st.composite
def flowers(draw):
    bits = draw(st.sampled_from((24, 24, 24, 8, 4, 1)))
    r = draw(st.integers(1, 20))
    return {'bits': bits, 'r': r, 'w': 2 * r + draw(st.integers(1, 8)), 'h': 2 * r + draw(st.integers(1, 8)), 'n': draw(M.rare(st.integers(1, 8), st.integers(9, 30), 16)), 'rot': draw(st.integers(-180, 180)),
            'lum': [draw(st.integers(0, 255)), draw(st.integers(0, 255))], 'f': [draw(st.integers(0, 20)) / 20 for _ in range(3)], 'filled': draw(st.booleans()), 'd': draw(M.hexes(1, 6))}


@P.part(flowers(), quick=250, rule='radius at least 3')
def flower_plots(case):
    """The points of the flower are painted, at 24 bits in the color the luminosity range has at their distance from the center; nothing else is."""
    bits, r, n, rot = case['bits'], case['r'], case['n'], case['rot']
    img = M.from_case({'w': case['w'], 'h': case['h'], 'bits': bits, 'd': case['d']})
    bmp = M.to_bmp(img)
    x, y = img.w // 2, img.h // 2
    l0, l1 = case['lum']
    f = case['f']
    what = f'{"filled " if case["filled"] else ""}flower of {n} petals r={r} turned {rot} lum {l0}..{l1} in {img.w}x{img.h} {bits}-bit'
    lum = {}
    if case['filled']:
        b.plotfilledflower(bmp, x, y, r, n, rot, case['lum'], f)
        rs = range(r, 2, -1)
    else:
        b.plotflower(bmp, x, y, r, n, rot, case['lum'], f)
        rs = [r]
    for k in rs:
        for p in tset(p2.flowervert(x, y, k, n, rot)):
            lum.setdefault(p, []).append(l0 + (l1 - l0) * math.hypot(p[0] - x, p[1] - y) / k)
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (img.w, img.h, img.bits) and got.pal == img.pal, '%s: geometry or palette changed', what)
    for q in range(img.h):
        for p in range(img.w):
            v = got.px[q][p]
            if (p, q) not in lum:
                need(v == img.px[q][p], '%s: (%s,%s) changed from %#x to %#x', what, p, q, img.px[q][p], v)
            elif bits == 24:
                l = min(255, abs(lum[(p, q)][-1]))
                need(M.colour_ok(got, v, [l * k for k in f], 2.001), '%s: (%s,%s) is %#x, expected luminosity %.1f', what, p, q, v, l)
    return r >= 3


# ---- outlines ------------------------------------------------------------------

corner = st.one_of(st.integers(-30, 60), st.integers(-600, 1200).map(lambda k: k / 20))


@P.part(st.lists(st.tuples(corner, corner).map(list), min_size=1, max_size=6) | st.lists(st.tuples(corner, corner).map(list), min_size=7, max_size=40), quick=400, rule='three corners or more')
def outline_points(case):
    """The outline of a polygon holds every corner and every side, closed, each point once and none off the sides."""
    v = case
    got = [tuple(p) for p in s3.polyboundary([list(p) for p in v])]
    what = f'outline of {short(v, 200)}'
    pts = set(got)
    same(len(pts), len(got), what + ': different points')
    r = [tuple(round(k) for k in p) for p in v]
    near = {}
    for p, q in zip(r, r[1:] + r[:1]):
        n = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
        for k in range(n + 1):
            t = k / n if n else 0
            x, y = p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t
            here = [(i, j) for i in {math.floor(x), math.ceil(x)} for j in {math.floor(y), math.ceil(y)} if (i, j) in pts]
            need(here, '%s: nothing at (%.2f,%.2f) of the side from %s to %s', what, x, y, p, q)
            near.update((h, 1) for h in here)
    need(pts <= set(near), '%s: %s are off the sides', what, short(sorted(pts - set(near)), 80))
    return len(set(r)) > 2


@P.part(st.tuples(st.one_of(*(st.lists(st.tuples(st.integers(k, 9), st.integers(k, 14)).map(list), min_size=1, max_size=40) for k in (-1, 0, 0))), M.size(9, 12), M.size(13, 17)).map(list), quick=400, rule='the outline fits')
def outline_rows(case):
    """The rows of an outline name its columns in order; one that leaves the limits has none."""
    v, w, h = case
    got, out = quiet(s3.fillpolydata, [list(p) for p in v], w, h)
    what = f'rows of {short(v, 200)} within {w}x{h}'
    if not all(0 <= x < w and 0 <= y < h for x, y in v):
        same((len(got), 'out of bounds' in out), (0, True), what + ' (out of bounds)')
        return False
    ys = [y for _, y in v]
    same({y: list(r) for y, r in got.items()}, {y: sorted({x for x, k in v if k == y}) for y in range(min(ys), max(ys) + 1)}, what)
    return True
