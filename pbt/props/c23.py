"""C23 vectors, coordinates and statistics."""
import math, random, cmath, statistics
from fractions import Fraction as Fr
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, close
from pythonbmp import mathlib as m

P = Prop('C23', ['floating-point results are compared within 1e-9 relative', 'the slope angle of a line is fixed only up to half a turn',
                 'statistics are asked of data that define them: not all x (or y) equal, mean and length not zero'])
num = st.integers(-50, 50) | st.integers(-4000, 4000).map(lambda v: v / 64) | st.sampled_from([250, -1000, .125])
wide = num | st.sampled_from([4096, -70000, 65536, 1e6, 255, 256])
vec = st.tuples(st.integers(1, 6).flatmap(lambda n: st.lists(st.lists(wide, min_size=n, max_size=n), min_size=2, max_size=5)),
                M.rare(st.just(0), st.integers(7, 300), 60)).map(lambda t: [[v[i % len(v)] + i // len(v) for i in range(t[1] or len(v))] for v in t[0]])
v2 = st.lists(num, min_size=2, max_size=2)
v3 = st.lists(num, min_size=3, max_size=3)


def many(lo):
    """Long lists of different points."""
    return st.tuples(st.integers(lo, 160), num, num).map(lambda t: [[(i * 7) % 163 + t[1], (i * i) % 31 * t[2]] for i in range(t[0])])


fz = lambda v: [Fr(k) for k in v]


@P.part(st.tuples(vec, num).map(list), quick=2000, rule='vectors of two or more dimensions')
def elementwise(case):
    """Sums, differences, products, scaling, rounding and limits act on every component."""
    vl, s = case
    u, v = vl[0], vl[1]
    n = range(len(u))
    close(m.addvect(u, v), [u[i] + v[i] for i in n], f'{u} + {v}')
    close(m.subvect(u, v), [u[i] - v[i] for i in n], f'{u} - {v}')
    close(m.mulvect(u, v), [u[i] * v[i] for i in n], f'{u} * {v}')
    close(m.scalarmulvect(u, s), [k * s for k in u], f'{u} * {s}')
    for k, w in zip(m.intscalarmulvect(u, s), u):
        need(isinstance(k, int) and abs(k - w * s) <= .5 + 1e-9, 'intscalarmulvect(%s, %s) has %s', u, s, k)
    if s:
        close(m.scalardivvect(u, s), [k / s for k in u], f'{u} / {s}')
    if all(v):
        close(m.divvect(u, v), [a / k for a, k in zip(u, v)], f'{u} / {v}')
    close(m.trans(vl, u), [[a + k for a, k in zip(w, u)] for w in vl], f'{vl} moved by {u}')
    close(m.addvectinlist(vl), [sum(w[i] for w in vl) for i in n], f'sum of {vl}')
    close(m.addvectpairlist([u, v]), [u[i] + v[i] for i in n], f'sum of {[u, v]}')
    close(m.addvecttripletlist([u, v, vl[-1]]), [u[i] + v[i] + vl[-1][i] for i in n], 'sum of a triplet')
    close(m.addvectlist(vl, vl[::-1]), [[a + k for a, k in zip(w, x)] for w, x in zip(vl, vl[::-1])], f'sums of {vl}')
    same([list(w) for w in m.pivotlist(vl)], [[w[i] for w in vl] for i in n], f'columns of {vl}')
    same(m.ravel2D(vl), [k for w in vl for k in w], f'{vl} flattened')
    for got, w in [(m.roundvect(u), u)] + list(zip(m.roundvectlist(vl), vl)):
        for a, k in zip(got, w):
            need(isinstance(a, int) and abs(a - k) <= .5, 'rounded %s is %s', k, a)
        same(len(got), len(w), 'length of the rounded vector')
    lo, hi = sorted((s, v[0]))
    cl = [max(lo, min(hi, k)) for k in u]
    same(m.setminmaxvec(u, lo, hi), cl, f'{u} limited to {lo}..{hi}')
    same([m.setminmax(k, lo, hi) for k in u], cl, f'{u} limited to {lo}..{hi}')
    same([m.clamp(k, lo, hi) for k in u], cl, f'{u} limited to {lo}..{hi}')
    same(m.setmaxvec(u, hi), [min(k, hi) for k in u], f'{u} limited to {hi}')
    same([m.setmax(k, hi) for k in u], [min(k, hi) for k in u], f'{u} limited to {hi}')
    same([m.setmin(k, lo) for k in u], [max(k, lo) for k in u], f'{u} limited from {lo}')
    il, ih = math.floor(lo), math.ceil(hi)
    for got in (m.intsetminmaxvec(u, il, ih), [m.intsetminmax(k, il, ih) for k in u]):
        for a, k in zip(got, u):
            need(isinstance(a, int) and abs(a - max(il, min(ih, k))) <= .5, '%s limited to whole numbers %s..%s is %s', k, il, ih, a)
    same([m.sign(k) for k in u], [(k > 0) - (k < 0) for k in u], f'signs of {u}')
    same([m.isinrange(k, hi, lo) for k in u], [lo < k < hi for k in u], f'{u} between {lo} and {hi}')
    same(m.vectiszero(u), not any(u), f'{u} is zero')
    need(m.vectiszero([0] * len(u)), 'a zero vector is not zero')
    same(m.delta([lo, hi]), hi - lo, 'delta')
    same(tuple(m.range2baseanddelta([lo, hi])), (lo, hi - lo), 'base and delta')
    iu, iv = [int(k) & 255 for k in u], [int(k) & 255 for k in v]
    same(m.xorvect(iu, iv), [a ^ k for a, k in zip(iu, iv)], f'{iu} xor {iv}')
    same(m.andvect(iu, iv), [a & k for a, k in zip(iu, iv)], f'{iu} and {iv}')
    same(m.orvect(iu, iv), [a | k for a, k in zip(iu, iv)], f'{iu} or {iv}')
    same(m.bitmaskvect(iu, iv[0]), [a & iv[0] for a in iu], f'{iu} masked with {iv[0]}')
    close([list(w) for w in m.mirrorvec(u, v)], [[a - k for a, k in zip(u, v)], [a + k for a, k in zip(u, v)]], f'{v} mirrored at {u}')
    same(tuple(m.mirror(u[0], s)), (u[0] - s, u[0] + s), f'{u[0]} mirrored by {s}')
    return len(u) > 1


@P.part(st.tuples(v3, v3, v3).map(list), quick=2000, rule='the three vectors are independent')
def products(case):
    """Dot, cross and triple products, lengths, distances, orthogonality and angles."""
    u, v, w = case
    U, V, W = map(fz, case)
    dot = sum(a * b for a, b in zip(U, V))
    close(m.dotprod(u, v), float(dot), f'{u}.{v}')
    cr = [U[1] * V[2] - U[2] * V[1], U[2] * V[0] - U[0] * V[2], U[0] * V[1] - U[1] * V[0]]
    close(m.crossprod3d(u, v), [float(k) for k in cr], f'{u}x{v}', 1e-9, 1e-9)
    det = sum(a * b for a, b in zip(cr, W))
    close(m.det3D(u, v, w), float(det), f'determinant of {case}', 1e-9, 1e-7)
    n = [sum((a - c) ** 2 for a, c in zip(x, y)) for x, y in ((U, V), (U, [0] * 3), (V, [0] * 3))]
    close(m.dist(u, v), math.sqrt(n[0]), f'distance of {u} and {v}')
    close(m.vmag(u), math.sqrt(n[1]), f'length of {u}')
    same(bool(m.isorthogonal(u, v)), dot == 0, f'{u} and {v} orthogonal')
    # a vector made orthogonal on purpose
    same(bool(m.isorthogonal([u[0], u[1]], [-u[1], u[0]])), True, f'{u[:2]} and its quarter turn orthogonal')
    nv = m.getnormvec(u, v, w)
    for x in (V, W):
        close(float(sum(Fr(a) * (b - c) for a, b, c in zip(nv, x, U))), 0.0, f'normal of {case} times an edge', 1e-9, 1e-4)
    e1, e2 = [b - a for a, b in zip(U, V)], [b - a for a, b in zip(U, W)]
    close(nv, [float(e1[1] * e2[2] - e1[2] * e2[1]), float(e1[2] * e2[0] - e1[0] * e2[2]), float(e1[0] * e2[1] - e1[1] * e2[0])], f'normal of {case}', 1e-9, 1e-7)
    if n[1] and n[2]:
        close(m.cosaffin(u, v), float(dot) / math.sqrt(n[1] * n[2]), f'cosine of {u} and {v}')
    if n[1]:
        L = math.sqrt(n[1])
        close(m.normvec(u), [k / L for k in u], f'unit vector of {u}')
        dc = m.dircos(u)
        close(dc, [k / L for k in u], f'direction cosines of {u}')
        ang = m.diracos(dc)
        close([math.cos(k) for k in ang], [k / L for k in u], f'direction angles of {u}')
        close(m.dirdeg(ang), [k * 180 / math.pi for k in ang], f'direction angles of {u} in degrees')
    return det != 0


@P.part(st.tuples(v3, v2, st.integers(-720, 720), st.integers(0, 3)).map(list), quick=2000, rule='the vector has no zero component')
def coordinates(case):
    """Polar, cylindrical and spherical coordinates describe the point and turn back into it; rotation turns by the angle."""
    v, c, deg, zero = case
    if zero:
        v[zero - 1] = 0
    x, y, z = v
    r2, r3 = math.hypot(x, y), math.sqrt(x * x + y * y + z * z)
    if r2:
        got = m.rect2polarcoord2D([x, y])
        close(got[0], r2, f'radius of {v[:2]}')
        close(m.polar2rectcoord2D(got), [x, y], f'{v[:2]} from its polar coordinates {got}')
        cy = m.rect2cylindricalcoord3D(v)
        close([cy[0], cy[2]], [r2, z], f'radius and height of {v}')
        close(m.cylindrical2rectcoord3D(cy), v, f'{v} from its cylindrical coordinates {cy}')
        sp = m.rect2sphericalcoord3D(v)
        close(sp[0], r3, f'radius of {v}')
        need(0 <= sp[2] <= math.pi, 'polar angle of %s is %s', v, sp[2])
        close(m.spherical2rectcoord3D(sp), v, f'{v} from its spherical coordinates {sp}', 1e-9, 1e-6)
        a = m.polarcoordangle2D([x, y])
        close([math.sin(a), -math.cos(a)], [x / r2, y / r2], f'angle of {v[:2]} from the top', 0, 1e-6)
        need(0 <= a <= 2 * math.pi + 1e-9, 'angle of %s is %s', v[:2], a)
        w = m.rect2polarcoord2Dwithcenter(c, [c[0] + x, c[1] + y])
        close(w[0], r2, f'radius of {v[:2]} round {c}')
        need(abs(cmath.exp(1j * w[1]) - cmath.exp(1j * a)) < 1e-5, 'angle of %s round %s is %s', v[:2], c, w[1])
    rv = m.computerotvec(deg)
    t = math.radians(deg)
    close(list(rv), [math.sin(t), math.cos(t)], f'rotation vector of {deg}', 1e-9, 1e-9)
    q = complex(x, y) * cmath.exp(1j * t)
    close(list(m.rotvec2D([x, y], rv)), [q.real, q.imag], f'{v[:2]} turned by {deg}', 1e-9, 1e-9)
    if x != c[0]:
        close(m.slope(c, [x, y]), (y - c[1]) / (x - c[0]), f'slope from {c} to {v[:2]}')
    if [x, y] != c:
        an = m.anglebetween2Dlines(c, [x, y])
        s = abs((math.sin(an) * (x - c[0]) - math.cos(an) * (y - c[1])))
        need(s <= 1e-6, 'slope angle from %s to %s is %s', c, v[:2], an)
    close([list(p) for p in m.mirrorx([x, y], z)], [[x - z, y], [x + z, y]], 'mirrorx')
    close([list(p) for p in m.mirrory([x, y], z)], [[x, y - z], [x, y + z]], 'mirrory')
    same([tuple(p) for p in m.adddimz([[x, y], c], z)], [(x, y, z), (c[0], c[1], z)], 'third dimension added')
    same(list(m.swapxy([x, y])), [y, x], 'swapxy')
    ix, iy, jx, jy = [int(k) for k in (x, y, c[0], c[1])]
    cp = m.centerpoint(ix, iy, jx, jy)
    need(abs(cp[0] - (ix + jx) / 2) <= .5 and abs(cp[1] - (iy + jy) / 2) <= .5, 'centre of %s is %s', (ix, iy, jx, jy), cp)
    return bool(x and y and z)


@P.part(st.tuples(M.rare(st.lists(v2, min_size=3, max_size=12), many(31), 20), st.integers(0, 5)).map(list), quick=2000, rule='neither all x nor all y are equal')
def statistic(case):
    """Mean, deviations, standard deviation, regression and correlation are those of the data."""
    xy, dup = case
    if dup == 0:
        xy = xy + xy[:2]
    X, Y = [p[0] for p in xy], [p[1] for p in xy]
    n = len(xy)
    FX, FY = fz(X), fz(Y)
    mx, my = sum(FX) / n, sum(FY) / n
    close(m.mean(X), float(mx), f'mean of {X}')
    close(m.meanlist([X, Y]), [float(mx), float(my)], f'means of {X} and {Y}', 1e-9, 1e-9)
    close(m.variance(X), [float(k - mx) for k in FX], f'deviations of {X}', 1e-9, 1e-9)
    sx, sy = sum((k - mx) ** 2 for k in FX), sum((k - my) ** 2 for k in FY)
    close(m.StdDev(X), math.sqrt(sx / n), f'standard deviation of {X}', 1e-9, 1e-9)
    if abs(mx) > 1e-3:
        close(m.coefvar(X), math.sqrt(sx / n) / float(mx), f'coefficient of variation of {X}', 1e-9, 1e-9)
    if not sx:
        return False
    sxy = sum((a - mx) * (c - my) for a, c in zip(FX, FY))
    close(m.LSMslope(xy), float(sxy / sx), f'regression slope of {xy}', 1e-7, 1e-7)
    close(m.LSMYint(xy), float(my - sxy / sx * mx), f'regression intercept of {xy}', 1e-7, 1e-6)
    if not sy:
        return False
    r = float(sxy) / math.sqrt(sx * sy)
    close(m.PearsonsR(xy), r, f'correlation of {xy}', 1e-7, 1e-7)
    close(m.Rsquare(xy), r * r, f'squared correlation of {xy}', 1e-7, 1e-7)
    if abs(r) < .999:
        close(m.TTest(xy), r * math.sqrt((n - 2) / (1 - r * r)), f't statistic of {xy}', 1e-4, 1e-5)
    return True


@P.part(st.tuples(M.rare(st.lists(v2, min_size=2, max_size=7), many(40), 80).flatmap(lambda v: st.one_of(st.just(v), st.integers(0, len(v) - 1).map(lambda i: v + [list(v[i])]))), st.integers(-9, 9), st.integers(0, 9), st.integers(0, 99)).map(list), quick=800, rule='three points or more')
def tables(case):
    """The distance table has the distance of every ordered pair, and random shifts keep to their range."""
    pts, lo, d, seed = case
    t = m.distancetable(pts)
    at = [pts.index(p) for p in pts]
    want = {(at[i], at[j]): math.dist(pts[i], pts[j]) for i in range(len(pts)) for j in range(len(pts)) if pts[i] != pts[j]}
    if len(set(at)) == len(pts):
        same(len(t), len(want), 'rows of the distance table')
    same({(i, j) for i, j, _ in t}, set(want), 'pairs in the distance table')
    for i, j, k in t:
        close(k, want[i, j], f'distance of {pts[i]} and {pts[j]}')
    cd = m.countdist(t)
    same(sum(cd.values()), len(t), 'counted distances')
    for k, c in cd.items():
        same(c, sum(1 for q in t if q[2] == k), f'count of distance {k}')
    random.seed(seed)
    for _ in range(5):
        r = m.randomvect(lo, lo + d)
        need(len(r) == 3 and all(isinstance(k, int) and lo <= k <= lo + d for k in r), 'randomvect(%s, %s) is %s', lo, lo + d, r)
    p3 = [[p[0], p[1], 0] for p in pts]
    for p, q in zip(p3, m.addrndtovert(p3, lo, lo + d)):
        need(all(lo - 1e-9 <= b - a <= lo + d + 1e-9 for a, b in zip(p, q)), '%s shifted to %s', p, q)
    same(m.initmatrix(len(pts), d + 1, lo), [[lo] * len(pts) for _ in range(d + 1)], 'initmatrix')
    mm = m.initmatrix(3, 3)
    mm[0][0] = 1
    same(mm, [[1, 0, 0], [0, 0, 0], [0, 0, 0]], 'rows of a new matrix are separate')
    X, Y = [p[0] for p in pts], [p[1] for p in pts]
    same(tuple(m.getdomainbounds(pts)), (min(X), max(X), min(Y), max(Y)), f'bounds of {pts}')
    same(tuple(m.getcomplexdomainbounds([complex(*p) for p in pts])), (min(X), max(X), min(Y), max(Y)), f'bounds of {pts}')
    return len(pts) > 2
