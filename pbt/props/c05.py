"""C05 straight lines."""
import math
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same
import pythonbmp.BITMAPlib as b
import pythonbmp.primitives2D as p2

P = Prop('C05', ['4-bit horizontal runs: known finding KF1 (last pixel) is allowed for, and only that pixel'])


@st.composite
def linecase(draw, inside=True, bits=M.BITS):
    img = draw(M.images(bits=bits, maxw=24, maxh=16))
    w, h = img['w'], img['h']
    pad = 0 if inside else draw(st.sampled_from([0, 3, 30]))
    p = [draw(M.coord(w, pad)), draw(M.coord(h, pad))]
    k = draw(st.sampled_from(['any', 'any', 'any', 'diag', 'h', 'v']))
    if k == 'diag':
        n = draw(st.integers(0, 16))
        q = [p[0] + draw(st.sampled_from([-1, 1])) * n, p[1] + draw(st.sampled_from([-1, 1])) * n]
        if inside:
            m = min(n, (w - 1 - p[0]) if q[0] > p[0] else p[0], (h - 1 - p[1]) if q[1] > p[1] else p[1])
            q = [p[0] + (m if q[0] > p[0] else -m), p[1] + (m if q[1] > p[1] else -m)]
    else:
        q = [draw(M.coord(w, pad)), draw(M.coord(h, pad))]
        if k == 'h':
            q[1] = p[1]
        if k == 'v':
            q[0] = p[0]
    return {'img': img, 'p': p, 'q': q, 'c': draw(M.wide(img['bits'])), 'how': draw(st.sampled_from(['line', 'int', 'vec']))}


def clean(img, c):
    """Remove colour c from the background so that painted pixels are recognisable."""
    c = M.mask(c, img.bits)
    for row in img.px:
        for x, v in enumerate(row):
            if v == c:
                row[x] = v ^ 1
    return img


@P.part(linecase(), quick=1200, rule='line of at least three pixels inside the bitmap')
def inside_lines(case):
    c = case['c']
    img = clean(M.from_case(case['img']), c)
    bmp = M.to_bmp(img)
    p, q = tuple(case['p']), tuple(case['q'])
    _draw(bmp, p, q, c, case['how'])
    what = f'line {p}-{q} on {img.w}x{img.h} {img.bits}-bit'
    pts = S.inked(bmp, img, c, what)
    _ok(img, pts, p, q, what)
    return max(abs(p[0] - q[0]), abs(p[1] - q[1])) >= 2


def _draw(bmp, p, q, c, how):
    if how == 'line':
        b.line(bmp, p[0], p[1], q[0], q[1], c)
    elif how == 'int':
        b.intlinevec(bmp, list(p), list(q), c)
    else:
        b.linevec(bmp, [p[0] + 0.3, p[1] - 0.2], [q[0] - 0.4, q[1] + 0.1], c)


def _ok(img, pts, p, q, what):
    if p[1] == q[1]:
        must, may = S.runs(img, [(p[1], p[0], q[0])])
        need(must <= pts <= must | may, '%s: painted %s', what, sorted(pts)[:20])
    else:
        S.check_line(pts, p, q, what)


@P.part(linecase(inside=False), quick=1200, rule='an endpoint outside the bitmap')
def clamped_lines(case):
    """Endpoints outside are moved to the nearest border pixel; nothing else changes."""
    c = case['c']
    img = clean(M.from_case(case['img']), c)
    bmp = M.to_bmp(img)
    p, q = tuple(case['p']), tuple(case['q'])
    _draw(bmp, p, q, c, case['how'])
    cl = lambda t: (min(max(t[0], 0), img.w - 1), min(max(t[1], 0), img.h - 1))
    what = f'line {p}-{q} on {img.w}x{img.h} {img.bits}-bit'
    pts = S.inked(bmp, img, c, what)
    _ok(img, pts, cl(p), cl(q), what)
    return cl(p) != p or cl(q) != q


pt = st.tuples(st.integers(-40, 40), st.integers(-40, 40))


@P.part(st.tuples(pt, pt), quick=800, rule='segment of at least three points')
def traced_points(case):
    """The point iterator walks from the first to the last point in single steps along the segment."""
    p, q = map(tuple, case)
    seq = [tuple(t) for t in p2.iterline(list(p), list(q))]
    same(seq[0], p, 'first point')
    same(seq[-1], q, 'last point')
    S.check_line(set(seq), p, q, f'points of {p}-{q}')
    for u, v in zip(seq, seq[1:]):
        need(max(abs(u[0] - v[0]), abs(u[1] - v[1])) <= 1, 'gap between %s and %s', u, v)
    same([tuple(t) for t in p2.lineseg(list(p), list(q))], seq, 'list of the points')
    return len(set(seq)) >= 3


@st.composite
def polycase(draw):
    img = draw(M.images(maxw=24, maxh=16))
    n = draw(M.rare(st.integers(2, 5), st.integers(6, 40), 12))
    pts = [[draw(M.coord(img['w'], 0)), draw(M.coord(img['h'], 0))] for _ in range(n)]
    return {'img': img, 'pts': pts, 'c': draw(M.wide(img['bits'])), 'closed': draw(st.booleans()), 'frac': draw(st.sampled_from([0, 0.3, -0.3]))}


@P.part(polycase(), quick=600, rule='at least three vertices')
def polylines(case):
    """A polyline or polygon outline is the union of its edges."""
    img = M.from_case(case['img'])
    pts, c = [tuple(p) for p in case['pts']], case['c']
    f = case['frac']
    bmp, ref = M.to_bmp(img), M.to_bmp(img)
    vs = [[x + f, y - f] for x, y in pts]
    edges = list(zip(pts, pts[1:]))
    if case['closed']:
        b.plotpoly(bmp, vs, c)
        edges.append((pts[0], pts[-1]))
    else:
        b.plotlines(bmp, vs, c)
    for u, v in edges:
        b.line(ref, u[0], u[1], v[0], v[1], c)
    M.expect(bmp, M.parse(ref), f'outline through {pts}')
    both = M.to_bmp(img)
    b.plotpolylist(both, [vs, [[x, y] for x, y in reversed(pts)]], c)
    b.plotpoly(ref, vs, c)
    b.plotpoly(ref, [[x, y] for x, y in reversed(pts)], c)
    if not case['closed']:
        pass
    M.expect(both, M.parse(ref), f'list of polygons through {pts}')
    return len(set(pts)) >= 3


@st.composite
def arrow(draw):
    co = M.rare(st.integers(5, 40), st.integers(-60, 140), 5)
    return {'u': [draw(co), draw(co)], 'v': [draw(co), draw(co)], 'head': draw(M.rare(st.integers(0, 12), st.integers(13, 90), 6))}


@P.part(arrow(), quick=500, rule='two different points')
def arrows(case):
    """An arrow is its shaft plus two head strokes of the given length at +-22.5 degrees, pointing away from the tip."""
    u, v, hs = tuple(case['u']), tuple(case['v']), case['head']
    if u == v:
        return False
    segs = [(tuple(a), tuple(z)) for a, z in p2.iterdrawvec(list(u), list(v), hs)]
    need(len(segs) == 3, 'arrow has %s strokes', len(segs))
    same(segs[0], (u, v), 'shaft')
    L = math.dist(u, v)
    hm = hs or L / 5
    back = math.atan2(u[1] - v[1], u[0] - v[0])
    want = sorted((v[0] + hm * math.cos(back + s), v[1] + hm * math.sin(back + s)) for s in (math.pi / 8, -math.pi / 8))
    got = [z for a, z in segs[1:]]
    for a, z in segs[1:]:
        same(a, v, 'head stroke starts at the tip')
    ok = any(all(abs(g[i] - w[i]) <= 0.5001 for g, w in zip(o, want) for i in (0, 1)) for o in (got, got[::-1]))
    need(ok, 'head strokes of %s->%s size %s end at %s, expected about %s', u, v, hs, got, want)
    img = M.Img(46, 46, 8)
    img.pal = M.defaultpal(8)
    bmp, ref = M.to_bmp(img), M.to_bmp(img)
    b.drawvec(bmp, list(u), list(v), hs, 7)
    for a, z in segs:
        b.line(ref, round(a[0]), round(a[1]), round(z[0]), round(z[1]), 7)
    M.expect(bmp, M.parse(ref), f'arrow {u}->{v}')
    return True


@st.composite
def para(draw):
    pts = [[draw(st.integers(0, 30)), draw(st.integers(0, 30))] for _ in range(3)]
    return {'pts': pts, 'bits': draw(st.sampled_from([1, 8, 24])), 'c': 1}


@P.part(para(), quick=300, rule='parallelogram with area')
def parallelograms(case):
    """Spanned by p1-p2 and p1-p3: all painted pixels lie in it (within a pixel); all four sides are painted."""
    a, q, r = [tuple(t) for t in case['pts']]
    d = (r[0] + q[0] - a[0], r[1] + q[1] - a[1])
    img = M.Img(64, 64, case['bits'])
    img.pal = M.defaultpal(case['bits']) if case['bits'] < 24 else None
    bmp = M.to_bmp(img)
    off = 0
    sh = lambda t: (t[0] + 30 - min(a[0], 30) + off, t[1])
    mnx, mny = min(t[0] for t in (a, q, r, d)), min(t[1] for t in (a, q, r, d))
    T = lambda t: (t[0] - mnx, t[1] - mny)
    A, Q, R, D = T(a), T(q), T(r), T(d)
    if max(t[0] for t in (A, Q, R, D)) > 63 or max(t[1] for t in (A, Q, R, D)) > 63:
        return False
    b.filledparallelogram(bmp, list(A), list(Q), list(R), 1)
    if (Q[0] - A[0]) * (R[1] - A[1]) == (Q[1] - A[1]) * (R[0] - A[0]):
        return False        # no area: only required to end normally
    pts = S.inked(bmp, img, 1, 'parallelogram')
    for t in (A, Q, R, D):
        need(t in pts, 'corner %s of parallelogram %s is not painted', t, (A, Q, R, D))
    u = (Q[0] - A[0], Q[1] - A[1])
    v = (R[0] - A[0], R[1] - A[1])
    det = u[0] * v[1] - u[1] * v[0]
    for x, y in pts:
        e = min(S.seg_dist(x, y, A, Q), S.seg_dist(x, y, A, R), S.seg_dist(x, y, Q, D), S.seg_dist(x, y, R, D))
        if e <= 2.1:
            continue
        need(det != 0, '(%s,%s) painted off a degenerate parallelogram', x, y)
        s = ((x - A[0]) * v[1] - (y - A[1]) * v[0]) / det
        t = ((y - A[1]) * u[0] - (x - A[0]) * u[1]) / det
        need(-1e-9 <= s <= 1 + 1e-9 and -1e-9 <= t <= 1 + 1e-9, '(%s,%s) painted outside parallelogram %s', x, y, (A, Q, R, D))
    for e1, e2 in ((A, Q), (A, R), (Q, D), (R, D)):
        n = max(abs(e1[0] - e2[0]), abs(e1[1] - e2[1]))
        for i in range(n + 1):
            x, y = e1[0] + (e2[0] - e1[0]) * i / max(n, 1), e1[1] + (e2[1] - e1[1]) * i / max(n, 1)
            need(any((round(x) + i_, round(y) + j_) in pts for i_ in (-1, 0, 1) for j_ in (-1, 0, 1)), 'side %s-%s unpainted near (%.1f,%.1f)', e1, e2, x, y)
    return det != 0


@st.composite
def thick(draw):
    img = {'w': draw(st.integers(1, 40)), 'h': draw(st.integers(1, 40)), 'bits': draw(st.sampled_from(M.BITS)), 'd': '00'}
    pad = draw(st.sampled_from([0, 8]))
    p, q = ([draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))] for _ in 'pq')
    r = draw(M.rare(st.integers(1, 6), st.integers(7, 40), 12))
    side = draw(st.integers(0, 15))
    if side < 4:        # alongside, just in reach of the pen
        i, d = side & 1, r + draw(st.integers(-3, 1))
        p[i] = q[i] = -d if side < 2 else img['wh'[i]] - 1 + d
        if draw(st.booleans()):
            p[1 - i] = draw(st.integers(-4, 4))
            q[1 - i] = draw(st.integers(0, 40))
    return {'img': img, 'p': p, 'q': q, 'r': r, 'via': draw(st.sampled_from(['line', 'lines', 'arrow', 'poly']))}


def blank(c):
    img = M.Img(c['w'], c['h'], c['bits'])
    img.pal = M.defaultpal(c['bits']) if c['bits'] < 24 else None
    return img


def band(img, pts, segs, r, what):
    def kf1(x, y):
        # the last pixel of a 4-bit run: its right neighbour is off the bitmap or not painted, its left one is painted
        return x == img.w - 1 or (x + 1, y) not in pts
    """Thick stroke: everything within r-1.5 of the segments painted, nothing beyond r+1.5."""
    for y in range(img.h):
        for x in range(img.w):
            d = min(S.seg_dist(x, y, a, z) for a, z in segs)
            if (x, y) in pts:
                need(d <= r + 1.5, '%s: (%s,%s) painted at distance %.2f', what, x, y, d)
            elif not (img.bits == 4 and kf1(x, y)):
                need(d > r - 1.5, '%s: (%s,%s) not painted at distance %.2f', what, x, y, d)


@P.part(thick(), quick=400, rule='pen of radius 2 or more')
def thick_lines(case):
    """A thick line is the band of the pen radius around the segment, clipped to the bitmap."""
    img = blank(case['img'])
    bmp = M.to_bmp(img)
    p, q, r = tuple(case['p']), tuple(case['q']), case['r']
    c = (1 << img.bits) - 1
    segs = [(p, q)]
    via = case['via']
    if via == 'line':
        b.thickroundline(bmp, list(p), list(q), r, c)
    elif via == 'lines' and r >= 2:
        m = (img.w // 2, img.h // 2)
        b.plotlines(bmp, [list(p), list(q), list(m)], c, r)
        segs.append((q, m))
    elif via == 'poly' and r >= 2:
        m = (img.w // 2, img.h // 2)
        b.thickplotpoly(bmp, [list(p), list(q), list(m)], r, c)
        segs += [(q, m), (m, p)]
    elif via == 'arrow':
        b.drawvec(bmp, list(p), list(q), 6, c, r)
        segs = [((a[0], a[1]), (z[0], z[1])) for a, z in p2.iterdrawvec(list(p), list(q), 6)]
    else:
        b.thickroundline(bmp, list(p), list(q), r, c)
    if p[0] == q[0] or p[1] == q[1]:
        run = [(x, y) for x in range(min(p[0], q[0]), max(p[0], q[0]) + 1) for y in range(min(p[1], q[1]), max(p[1], q[1]) + 1)]
        if len(segs) == 1 and via != 'arrow':
            must, may = S.discs(img, run, r)
            S.painted(bmp, img, must, may, c, f'{via} {p}-{q} pen {r} on {img.w}x{img.h} {img.bits}-bit')
    pts = S.inked(bmp, img, c, 'thick line')
    band(img, pts, segs, r, f'{via} {p}-{q} pen {r} on {img.w}x{img.h} {img.bits}-bit')
    return r >= 2
