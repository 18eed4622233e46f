"""C27 curves that fill or fold: iterated function systems, Hilbert and Koch curves, attractors."""
import cmath, functools, math, os, random
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, close, need, same, quiet, short
import pythonbmp.BITMAPlib as b
import pythonbmp.fractals as F

P = Prop('C27', ['iterated function systems draw at random: their points must lie on the attractor and visit all of its well-visited parts; the chance of a false alarm is below 1e-9'])


def ink(bits, c, bg):
    """Two different stored colors."""
    c, bg = M.mask(c, bits), M.mask(bg, bits)
    return c, bg


# ---- iterated function systems

NAMED = {'fern': (((0, 0, 0, .16, 0, 0), (.2, -.26, .23, .22, 0, 1.6), (-.15, .28, .26, .24, 0, .44), (.85, .04, -.04, .85, 0, 1.6)), (.009, .073, .137, 1)),
         'tree': (((0, .2, 0, .5, 0, 0), (.1, 0, 0, .1, 0, .2), (.42, -.42, .42, .42, 0, .2), (.42, .42, -.42, .42, 0, .2)), (.05, .2, .6, 1)),
         'cantortree': (((1 / 3, 0, 0, 1 / 3, 0, 0), (1 / 3, 0, 0, 1 / 3, 1, 0), (2 / 3, 0, 0, 2 / 3, .5, .5), (0, 0, 0, 0, 0, 0)), (1 / 3, 2 / 3, 1, 1)),
         'sierpinskitriangle': (((.5, 0, 0, .5, 0, 0), (.5, 0, 0, .5, 1, 0), (.5, 0, 0, .5, .5, .5), (0, 0, 0, 0, 0, 0)), (1 / 3, 2 / 3, 1, 1))}


@functools.lru_cache(40)
def cloud(key, n=30000):
    """Points of the attractor, by the chaos game."""
    maps, p = NAMED[key] if isinstance(key, str) else key
    rnd = random.Random(7)
    x = y = 0.0
    out = []
    for _ in range(n):
        j = rnd.random()
        m = maps[next((k for k in range(3) if j < p[k]), 3)]
        x, y = m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]
        out.append((x, y))
    return out


@st.composite
def systems(draw):
    if draw(st.integers(0, 2)):
        key = draw(st.sampled_from(sorted(NAMED)))
    else:
        e = st.integers(-9, 9).map(lambda k: k / 20)
        maps = [[draw(e), draw(e), draw(e), draw(e), draw(e) if i else 0., draw(e) if i else 0.] for i in range(4)]
        cut = sorted(draw(st.lists(st.integers(1, 19), min_size=3, max_size=3)))
        key = [maps, [c / 20 for c in cut] + [1]]
    w, h = draw(M.rare(st.integers(6, 60), st.integers(60, 300), 12)), draw(M.rare(st.integers(6, 60), st.integers(60, 300), 12))
    return {'key': key, 'x': draw(st.sampled_from([0, 0, 3, 50])), 'y': draw(st.sampled_from([0, 0, 2, 70])), 'w': w, 'h': h, 'sx': draw(st.sampled_from([4, 10, 25, 25, 60])),
            'sy': draw(st.sampled_from([3, 8, 30, 30, 75])), 'ox': draw(st.integers(-5, w)), 'oy': draw(st.integers(-20, 5)), 'n': draw(st.sampled_from([50, 2000, 6000])), 'swap': draw(st.booleans()),
            'c': draw(st.integers(1, 0xffffff)), 'bits': draw(st.sampled_from(M.BITS)), 'plot': draw(st.integers(0, 2)) == 0}


@P.part(systems(), quick=250, rule='thirty or more cells of the attractor are visited')
def function_systems(case):
    """Points drawn are images of attractor points, inside the area; the well-visited cells of the attractor are reached."""
    key = case['key'] if isinstance(case['key'], str) else (tuple(tuple(m) for m in case['key'][0]), tuple(case['key'][1]))
    par = F.getIFSparams()[key] if isinstance(key, str) else key
    x1, y1, w, h = case['x'], case['y'], case['w'], case['h']
    x2, y2 = x1 + w, y1 + h
    a = (x2, y2, x1, y1) if case['swap'] else (x1, y1, x2, y2)
    sx, sy, ox, oy, n = case['sx'], case['sy'], case['ox'], case['oy'], case['n']
    what = f'iterIFS({case["key"]}, {a}, {sx}, {sy}, {ox}, {oy}, {n})'
    if case['plot']:
        c = M.mask(case['c'], case['bits']) or 1
        img = M.Img(x2 + 3, y2 + 2, case['bits'], None, M.defaultpal(case['bits']) if case['bits'] < 24 else None)
        bmp = M.to_bmp(img)
        quiet(b.IFS, bmp, par, *a, sx, sy, ox, oy, c, n)
        got = S.inked(bmp, img, c, what)
    else:
        pts = list(F.iterIFS(par, *a, sx, sy, ox, oy, n))
        need(len(pts) <= n, '%s: %s points', what, len(pts))
        got = set(pts)
    cells, marks = {}, set()
    for x, y in cloud(key):
        px, py = math.floor(x * sx + ox), math.floor(h - y * sy + oy)
        cells[px, py] = cells.get((px, py), 0) + 1
        marks.add((px, py))
    for px, py in got:
        need(x1 <= px <= x2 and y1 <= py <= y2, '%s: point %s,%s outside the area', what, px, py)
        need(any((px - x1 + i, py - y1 + j) in marks for i in (-1, 0, 1) for j in (-1, 0, 1)) or lone(key, (px - x1, py - y1), sx, sy, ox, oy, h), '%s: point %s,%s is not on the attractor', what, px, py)
    # a cell holding a share p of the visits is missed by n of them with a chance of about (1-p)^(n/4) at most
    for (px, py), k in cells.items():
        if 0 < px < w and 0 < py < h and k / 30000 * n > 160:
            need(any((x1 + px + i, y1 + py + j) in got for i in (-1, 0, 1) for j in (-1, 0, 1)), '%s: no point near %s,%s, which holds %.1f%% of the attractor', what, x1 + px, y1 + py, k / 300)
    return len(got) >= 30


def lone(key, cell, sx, sy, ox, oy, h, depth=9):
    """Is the cell within 1.5 pixels of an attractor point too rare for the cloud? Searched by applying up to `depth` maps to the whole attractor's box."""
    maps = (NAMED[key] if isinstance(key, str) else key)[0]
    p = (NAMED[key] if isinstance(key, str) else key)[1]
    maps = [m for i, m in enumerate(maps) if p[i] > (p[i - 1] if i else 0)]
    R = max(math.hypot(x, y) for x, y in cloud(key)) * 1.1 + .1

    def go(m, k):
        # m maps the disc of radius R to a box round (m4, m5)
        cx, cy = m[4] * sx + ox, h - m[5] * sy + oy
        rx, ry = math.hypot(m[0], m[1]) * R * sx, math.hypot(m[2], m[3]) * R * sy
        if abs(cell[0] + .5 - cx) > rx + 2 or abs(cell[1] + .5 - cy) > ry + 2:
            return False
        if k == 0 or (rx < 1 and ry < 1):
            return True
        for q in maps:
            n = (m[0] * q[0] + m[1] * q[2], m[0] * q[1] + m[1] * q[3], m[2] * q[0] + m[3] * q[2], m[2] * q[1] + m[3] * q[3],
                 m[0] * q[4] + m[1] * q[5] + m[4], m[2] * q[4] + m[3] * q[5] + m[5])
            if go(n, k - 1):
                return True
        return False
    return go((1, 0, 0, 1, 0, 0), depth)


@st.composite
def ferns(draw, file):
    w, h = draw(st.integers(30, 90)), draw(st.integers(60, 120))
    return {'img': {'w': w + 9, 'h': h + 7, 'bits': draw(st.sampled_from(M.BITS)), 'd': [0]}, 'x': draw(st.integers(0, 8)), 'y': draw(st.integers(0, 6)), 'w': w, 'h': h, 'c': draw(st.integers(1, 255)) * 65793,
            'out': draw(st.integers(0, 5)) == 0, 'file': file}


@P.part([ferns(False), ferns(True)], quick=24, rule='the fern is drawn')
def fern(case):
    """A fern a tenth of the area's height per unit, its stem in the middle of the bottom."""
    i = case['img']
    bits = i['bits']
    c = M.mask(case['c'], bits) or 1
    img = M.Img(i['w'], i['h'], bits, None, M.defaultpal(bits) if bits < 24 else None)
    x1, y1, w, h = case['x'], case['y'], case['w'], case['h']
    a = (x1, y1, x1 + w, y1 + h + (200 if case['out'] else 0))
    what = f'fern{a} on {img.w}x{img.h} {bits}-bit'
    bmp = M.to_bmp(img)
    if case['file']:
        with open('in.bmp', 'wb') as f:
            f.write(M.encode(img))
        if os.path.exists('out.bmp'):
            os.remove('out.bmp')
        quiet(b.fern2file, 'in.bmp', 'out.bmp', *a, c)
        bmp = b.loadBMP('out.bmp')
    else:
        quiet(b.fern, bmp, *a, c)
    if case['out']:
        same(M.parse(bmp).px, img.px, what + ' partly outside')
        return False
    got = S.inked(bmp, img, c, what)
    s = h // 10
    marks = {}
    for x, y in cloud('fern'):
        k = (x1 + math.floor(x * s + w // 2), y1 + math.floor(h - y * s))
        marks[k] = marks.get(k, 0) + 1
    for px, py in got:
        need(x1 <= px <= x1 + w and y1 <= py <= y1 + h, '%s: point %s,%s outside the area', what, px, py)
        need(any((px + u, py + v) in marks for u in (-1, 0, 1) for v in (-1, 0, 1)) or lone('fern', (px - x1, py - y1), s, s, w // 2, 0, h), '%s: point %s,%s is not on the fern', what, px, py)
    for (px, py), k in marks.items():
        if k > 40 and x1 < px < x1 + w and y1 < py < y1 + h:
            need(any((px + u, py + v) in got for u in (-1, 0, 1) for v in (-1, 0, 1)), '%s: no point near %s,%s of the fern', what, px, py)
    return True


# ---- curves

def drawn(got, segs, what):
    """got are the pixels of the polyline of the segments, one pixel wide."""
    for x, y in got:
        need(any(S.seg_dist(x, y, p, q) <= 1.5 for p, q in segs), '%s: pixel %s,%s is off the curve', what, x, y)
    for p, q in segs:
        n = max(abs(q[0] - p[0]), abs(q[1] - p[1]), 1)
        for k in range(int(n) + 1):
            t = min(1, k / n)
            x, y = p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])
            cells = [(math.floor(x) + i, math.floor(y) + j) for i in (-1, 0, 1, 2) for j in (-1, 0, 1, 2)]
            need(any(c in got and math.hypot(c[0] - x, c[1] - y) < 1.5 for c in cells), '%s: no pixel at %.1f,%.1f of the curve', what, x, y)


def third(got, c, bg, what):
    """Only the two colors appear; KF1 of C06 leaves the last pixel of a 4-bit row out of the background."""
    for r in got.px:
        for x, v in enumerate(r):
            need(v in (c, bg) or got.bits == 4 and x == got.w - 1 and v == 0, '%s: color %s appears', what, v)


@st.composite
def hilberts(draw):
    n = draw(M.rare(st.integers(0, 4), st.integers(5, 6), 12))
    return {'n': n, 'w': draw(M.size(2, 70)), 'h': draw(M.size(2, 70)), 'bits': draw(st.sampled_from(M.BITS)), 'c': draw(st.integers(1, 0xffffff)), 'bg': draw(st.one_of(st.just(0), st.integers(1, 0xffffff))),
            'pen': draw(st.sampled_from([1, 1, 1, 2, 3])), 'o': draw(st.integers(0, 1)), 'opt': draw(st.integers(0, 5))}


@P.part(hilberts(), quick=400, rule='second order or more')
def hilbert_curves(case):
    """4^n corners, one in the middle of every cell of the 2^n grid, each next to the one before; saved as one stroke."""
    n, w, h = case['n'], case['w'], case['h']
    o = case['o']
    l = []
    v = (0, h - 1, w - 1, 0) if o else (w - 1, 0, 0, h - 1)
    F.hilbertvert(l, (0, 0), v, n)
    what = f'hilbertvert((0, 0), {v}, {n})'
    need(len(l) == 4 ** n, '%s: %s corners, expected %s', what, len(l), 4 ** n)
    k = 2 ** n
    cw, ch = (w - 1) / k, (h - 1) / k
    want = {(i, j): ((i + .5) * cw, (j + .5) * ch) for i in range(k) for j in range(k)}
    path = []
    if min(cw, ch) > 1.01:
        for x, y in l:
            i, j = min(k - 1, max(0, int(x / cw))), min(k - 1, max(0, int(y / ch)))
            best = min(((i + u, j + t) for u in (-1, 0, 1) for t in (-1, 0, 1) if (i + u, j + t) in want), key=lambda c: abs(want[c][0] - x) + abs(want[c][1] - y))
            need(abs(want[best][0] - x) <= .5001 and abs(want[best][1] - y) <= .5001, '%s: corner %s,%s is not in the middle of a cell', what, x, y)
            path.append(best)
        need(len(set(path)) == len(l), '%s: a cell is visited twice', what)
        need(all(abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1 for p, q in zip(path, path[1:])), '%s: a step is not to the next cell', what)
        if n:
            ends = {path[0], path[-1]}
            need(ends <= {(0, 0), (k - 1, 0), (0, k - 1), (k - 1, k - 1)}, '%s: ends at %s', what, ends)
    bits, bgc = case['bits'], case['bg']
    c, bg = M.mask(case['c'], bits) or 1, M.mask(bgc, bits)
    if c == bg:
        bgc = bg = 0
    if case['opt'] == 0:
        a, bits, c, bg, pen, o = [], 1, 1, 0, 1, 0
        l = []
        F.hilbertvert(l, (0, 0), (w - 1, 0, 0, h - 1), n)
    else:
        pen = case['pen']
        a = [bits, c, bg, pen, o]
    what = f'savehilbertcurve2file({w}, {h}, {n}, {a})'
    quiet(b.savehilbertcurve2file, 'o.bmp', w, h, n, *a)
    got = M.parse(open('o.bmp', 'rb').read())
    same((got.w, got.h, got.bits), (w, h, bits), what + ': geometry')
    third(got, c, bg, what)
    if pen == 1:
        drawn({(x, y) for y in range(h) for x in range(w) if got.px[y][x] == c}, list(zip(l, l[1:])), what)
    else:
        clipped(got, c, list(zip(l, l[1:])), pen, what)
    return n > 1


def clipped(got, c, segs, pen, what):
    """Like drawn, for strokes that may reach over the border of the image."""
    for y in range(got.h):
        for x in range(got.w):
            d = min((S.seg_dist(x, y, p, q) for p, q in segs), default=99)
            if d <= pen - 1.5:
                need(got.px[y][x] == c or got.bits == 4 and x == got.w - 1, '%s: pixel %s,%s is %.1f from the curve and not painted', what, x, y, d)
            elif d > pen + 1.5:
                need(got.px[y][x] != c, '%s: pixel %s,%s is %.1f from the curve and painted', what, x, y, d)


def folded(u, v, n):
    if n == 0:
        return [u]
    d = v - u
    p = [u, u + d / 3, (u + v) / 2 + d * 1j * math.sqrt(3) / 6, u + 2 * d / 3, v]
    return [q for i in range(4) for q in folded(p[i], p[i + 1], n - 1)]


@st.composite
def kochs(draw):
    c = st.integers(-60, 60)
    return {'u': [draw(c), draw(c)], 'v': [draw(c), draw(c)], 'n': draw(st.integers(0, 4)), 'r': draw(M.radius(3, 40, 200)), 'ang': draw(st.sampled_from([0, 0, 30, 90, 17, -45, 200])),
            'order': draw(st.integers(0, 3)), 'bits': draw(st.sampled_from(M.BITS)), 'c': draw(st.integers(1, 0xffffff)), 'bg': draw(st.one_of(st.just(0), st.integers(1, 0xffffff))),
            'pen': draw(st.sampled_from([1, 1, 1, 2, 3])), 'opt': draw(st.integers(0, 5))}


@P.part(kochs(), quick=250, rule='the segment is folded')
def koch_curves(case):
    """Each segment becomes four with an equilateral bump on the same side; a snowflake has six-fold symmetry and bumps outwards."""
    u, v, n = complex(*case['u']), complex(*case['v']), case['n']
    got = F.kochcurvevert(case['u'], case['v'], n)
    what = f'kochcurvevert({case["u"]}, {case["v"]}, {n})'
    want = folded(u, v, n) + [v]
    need(len(got) == len(want), '%s: %s points, expected %s', what, len(got), len(want))
    for k, (p, q) in enumerate(zip(got, want)):
        need(abs(complex(*p) - q) < 1e-6, '%s: point %s is %s, expected %s', what, k, p, q)
    r, ang, order = case['r'], case['ang'], case['order']
    x, y = case['u']
    flake = [complex(*p) for p in F.kochsnowflakevert(x, y, r, ang, order)]
    what = f'kochsnowflakevert({x}, {y}, {r}, {ang}, {order})'
    tips = [i for i, p in enumerate(flake) if abs(abs(p - complex(x, y)) - r) < 1.5]
    need(max(abs(p - complex(x, y)) for p in flake) < r + 2, '%s: reaches further than its radius', what)
    need(len(tips) >= 3, '%s: fewer than three tips', what)
    ring = [p for i, p in enumerate(flake) if abs(p - flake[i - 1]) > 1e-9]
    need(len(ring) == 3 * 4 ** order, '%s: %s different corners, expected %s', what, len(ring), 3 * 4 ** order)
    tri = [ring[(ring.index(flake[0]) + k * 4 ** order) % len(ring)] for k in range(3)]
    side = math.sqrt(3) * r
    for k in range(3):
        need(abs(abs(tri[k] - tri[k - 1]) - side) < 2, '%s: sides of the triangle are not equal', what)
    for k in range(3):
        w = folded(tri[k], tri[(k + 1) % 3], order)
        s = ring.index(flake[0]) + k * 4 ** order
        for i, q in enumerate(w):
            need(abs(ring[(s + i) % len(ring)] - q) < 1e-6, '%s: corner %s of side %s is wrong', what, i, k)
    if order:
        need(abs(folded(tri[0], tri[1], 1)[2] - complex(x, y)) > r / 2 + 1e-9, '%s: the bumps point inwards', what)
    bits, pen = case['bits'], case['pen']
    c, bg = M.mask(case['c'], bits) or 1, M.mask(case['bg'], bits)
    if c == bg:
        bg = 0
    if case['opt'] == 0:
        a, bits, c, bg, pen, ang = [], 1, 1, 0, 1, 0
    else:
        a = [ang, bits, c, bg, pen]
    what = f'savekochsnowflake2file({r}, {order}, {a})'
    quiet(b.savekochsnowflake2file, 'o.bmp', r, order, *a)
    got = M.parse(open('o.bmp', 'rb').read())
    need(got.bits == bits and got.w == got.h and got.w >= 2 * r + 1, '%s: geometry %s', what, (got.w, got.h, got.bits))
    third(got, c, bg, what)
    m = (got.w - 1) >> 1
    l = [tuple(p) for p in F.kochsnowflakevert(m, m, r, ang, order)]
    segs = [(p, q) for p, q in zip(l, l[1:] + l[:1]) if p != q]
    if pen == 1:
        drawn({(i, j) for j in range(got.h) for i in range(got.w) if got.px[j][i] == c}, segs, what)
    else:
        clipped(got, c, segs, pen, what)
    return n > 0 and order > 0


# ---- attractors

s9 = math.sin
c9 = math.cos


def sgn(v):
    return (v > 0) - (v < 0)


def mira(x, a):
    return a * x + 2 * (1 - a) * x * x / (1 + x * x) ** 2


def icon(z, a, be, g, o, l, d):
    p = z ** (d - 1)
    return (l + a * abs(z) ** 2 + be * (z * p).real + 1j * o) * z + g * p.conjugate()


par = st.integers(-50, 50).map(lambda k: k / 20)
small = st.integers(-20, 20).map(lambda k: k / 40)
# name: (step from x, y and the parameters, start, parameter strategies, complex points, arguments of the plot)
A = {
    'ikeda': (lambda x, y, a, bb, k, p: (lambda z: (z.real, z.imag))(a + bb * complex(x, y) * cmath.exp(1j * (k - p / (1 + x * x + y * y)))), (0, 0),
              [st.sampled_from([.85, 1]), st.sampled_from([.9, .7]), st.sampled_from([.4, .1]), st.sampled_from([7.7, 6, 8.5])], True),
    'n': (lambda x, y, a, bb, c, d: (lambda u: (u, c * s9(c * u) + d * c9(d * y)))(a * s9(a * y) + bb * c9(bb * x)), (0, 0), [par] * 4, False),
    'peterdejong': (lambda x, y, a, bb, c, d: (s9(a * y) - c9(bb * x), s9(c * x) - c9(d * y)), (0, 0), [par] * 4, False),
    'clifford': (lambda x, y, a, bb, c, d: (s9(a * y) + c * c9(a * x), s9(bb * x) + d * c9(bb * y)), (0, 0), [par] * 4, False),
    'fractaldream': (lambda x, y, a, bb, c, d: (s9(bb * y) + c * s9(bb * x), s9(a * x) + d * s9(a * y)), (.1, .1), [par] * 4, False),
    'hopalong': (lambda x, y, a, bb, c: (y - sgn(x) * math.sqrt(abs(bb * x - c)), a - x), (0, 0), [par] * 3, False),
    'gumowskimira': (lambda x, y, a, bb: (lambda u: (u, mira(u, a) - x))(bb * y + mira(x, a)), None, [small, st.sampled_from([1, .99, .998])], False),
    'symmetricicon': (lambda x, y, *q: (lambda z: (z.real, z.imag))(icon(complex(x, y), *q)), None, None, True),
    'duffing': (None, (0, 0), None, False),
}
ICON = [[1.8, 0, 1, .1, -1.93, 5], [1, -.1, .167, 0, -2.08, 7], [2, 0, 1, .1, -1.8, 3], [-2.5, 0, .9, -.15, 2.5, 3], [1, .04, .1, .188, -2.7, 4]]


@st.composite
def attractors(draw, n):
    start, ps = A[n][1], A[n][2]
    if n == 'symmetricicon':
        p = draw(st.sampled_from(ICON))
        p = [v + draw(st.integers(-3, 3)) / 100 for v in p[:5]] + p[5:]
    elif n == 'duffing':
        p = [draw(st.sampled_from([.25, .1])), draw(st.sampled_from([.3, .5])), draw(st.sampled_from([1., 1.4])), draw(st.sampled_from([.01, .05]))]
    else:
        p = [draw(q) for q in ps]
    if start is None and n != 'symmetricicon' and draw(st.integers(0, 3)) == 0:
        far = draw(st.sampled_from([30, 3e3, 1e6]))
        o = [far * draw(small), far * draw(small)]
    else:
        o = [draw(small), draw(small)] if start is None or n == 'duffing' else list(start)
    return {'n': n, 'p': p, 'o': o, 't': draw(st.integers(0, 9)) / 2, 'k': draw(st.sampled_from([5, 60, 800, 2000])), 'w': draw(M.size(2, 14, 130)), 'h': draw(M.size(2, 12, 130)), 'bits': draw(st.sampled_from(M.BITS)),
            'file': draw(st.booleans())}


@P.part([attractors(n) for n in sorted(A)], quick=1200, rule='the attractor spreads over several cells')
def attractor_points(case):
    """Every point follows from the one before by the attractor's equation; plotted, the cells count the points in each."""
    n, p, k, o = case['n'], case['p'], case['k'], case['o']
    what = f'{n}attractorlist({p}, {k}) from {o}'
    try:
        if n == 'duffing':
            a, f, w, dt = p
            pts = F.duffingattractorlist(o[0], o[1], case['t'], dt, a, f, w, k)
        elif n == 'gumowskimira':
            pts = F.gumowskimiraattractorlist(*o, *p, k)
        elif n == 'symmetricicon':
            pts = F.symmetriciconattractorlist(*o, *p, k)
        else:
            pts = getattr(F, n + 'attractorlist')(*p, k)
    except OverflowError:
        return False
    need(len(pts) == k, '%s: %s points', what, len(pts))
    xy = [(z.real, z.imag) if A[n][3] else tuple(z) for z in pts]
    x, y = o
    for i, q in enumerate(xy):
        if n == 'duffing':
            want = (x + y * dt, y + (x - x ** 3 - a * y + f * math.cos(w * (case['t'] + i * dt))) * dt)
        else:
            try:
                want = A[n][0](x, y, *p)
            except OverflowError:
                return False
        for g, t in zip(q, want):
            need(g == t or abs(g - t) < 1e-7 * (1 + abs(t)) or math.isnan(t) or n == 'hopalong' and (abs(x) < 1e-9 or abs(p[1] * x - p[2]) < 1e-12), '%s: point %s is %s, %s follows from %s', what, i, q, want, (x, y))
        x, y = q
    if n == 'duffing':
        if o != [0, 0] or case['t']:
            try:
                xy = [tuple(q) for q in F.duffingattractorlist(0, 0, 0, dt, a, f, w, k)]
            except OverflowError:       # the step is too long for these parameters
                return False
        args = [a, f, w, dt, k]
    elif n in ('gumowskimira', 'symmetricicon'):
        args = [*o, *p, k]
    else:
        args = [*p, k]
    w, h, bits = case['w'], case['h'], case['bits']
    lo = [min(q[i] for q in xy) for i in (0, 1)]
    hi = [max(q[i] for q in xy) for i in (0, 1)]
    if not all(math.isfinite(v) for q in xy for v in q) or min(hi[0] - lo[0], hi[1] - lo[1]) < 1e-6:
        return False
    if max(abs(v) for v in lo + hi) > 1e9 * min(hi[0] - lo[0], hi[1] - lo[1]):
        return False
    sure = [[0] * w for _ in range(h)]
    most = [[0] * w for _ in range(h)]
    for q in xy:
        u, t = (q[0] - lo[0]) / ((hi[0] - lo[0]) / (w - 1)), (q[1] - lo[1]) / ((hi[1] - lo[1]) / (h - 1))
        us, ts = {math.floor(u - 1e-9), math.floor(u + 1e-9)} & set(range(w)), {math.floor(t - 1e-9), math.floor(t + 1e-9)} & set(range(h))
        for i in us:
            for j in ts:
                most[j][i] += 1
                if len(us) * len(ts) == 1:
                    sure[j][i] += 1
    what = f'{n}attractor({w}, {h}, {bits}, {args})'
    try:
        if case['file']:
            quiet(getattr(b, f'save{n}attractor2file'), 'o.bmp', w, h, bits, *args)
            got = M.parse(open('o.bmp', 'rb').read())
        else:
            bmp, _ = quiet(getattr(b, f'{n}attractor'), w, h, bits, *args)
            got = M.parse(bmp)
    except ZeroDivisionError:
        if max(map(max, sure)) > min(map(min, most)):
            raise Violation(f'{what}: failed')
        return False
    same((got.w, got.h, got.bits), (w, h, bits), what + ': geometry')
    top = (1 << bits) - 1
    a1, a2 = min(map(min, sure)), min(map(min, most))
    b1, b2 = max(map(max, sure)), max(map(max, most))
    for j in range(h):
        for i in range(w):
            v = got.px[j][i]
            los = [top * (sure[j][i] - m) / (c - m) for m in (a1, a2) for c in (b1, b2) if c > m]
            his = [top * (most[j][i] - m) / (c - m) for m in (a1, a2) for c in (b1, b2) if c > m]
            if los:
                need(min(los) - 1 - 1e-9 * top <= v <= max(his) + 1e-9 * top + .01, '%s: cell %s,%s is %s, expected %s to %s', what, i, j, v, min(los), max(his))
    return sum(v > 0 for r in sure for v in r) > 4


@P.part(st.sampled_from(sorted(NAMED)), quick=8, rule='always')
def named_systems(key):
    """The predefined function systems."""
    d = F.getIFSparams()
    same(sorted(d), sorted(NAMED), 'names of the function systems')
    maps, p = NAMED[key]
    close([list(m) for m in d[key][0]], [list(m) for m in maps], f'maps of {key}')
    close(list(d[key][1]), list(p), f'probabilities of {key}')
    return True
