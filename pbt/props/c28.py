"""C28 solids in space: closed surfaces, rigid turns, projection, only front faces shown."""
import math
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
from .c15 import blank, hull_rows
import pythonbmp.BITMAPlib as b
import pythonbmp.solids3D as s3
from pythonbmp.colors import colormix

P = Prop('C28', ['the viewer stands at the origin; a face of a closed convex solid is in front when the solid lies behind its plane'])


def sub(a, c):
    return [p - q for p, q in zip(a, c)]


def dot(a, c):
    return sum(p * q for p, q in zip(a, c))


def cross(a, c):
    return [a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]]


def mag(a):
    return math.sqrt(dot(a, a))


def newell(p):
    n = [0, 0, 0]
    for u, v in zip(p, p[1:] + p[:1]):
        n = [a + c for a, c in zip(n, cross(u, v))]
    return n


KINDS = ('tetrahedra', 'cube', 'hexahedra', 'octahedra', 'deca', 'icosa', 'sphere', 'cylinder', 'cone')
FACES = {'tetrahedra': (4, 4), 'cube': (8, 6), 'hexahedra': (5, 6), 'octahedra': (6, 8), 'deca': (7, 10), 'icosa': (12, 20)}


RING = [(math.sin(math.radians(72 * i + 180)), math.cos(math.radians(72 * i + 180))) for i in range(5)]
HIGH = math.sqrt(4 * math.sin(math.radians(36)) ** 2 - 1)      # height of a pole above a ring of radius 1 when its edges are as long as the ring's
UNIT = {'tetrahedra': [(0, 0, 0), (.5, .5 ** .5, 0), (1, 0, 0), (.5, .5, .375 ** .5)],
        'cube': [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0), (0, 1, 1), (0, 0, 1), (1, 0, 1), (1, 1, 1)],
        'hexahedra': [(0, 0, 0), (.5, .5 ** .5, 0), (1, 0, 0), (.5, .5, .375 ** .5), (.5, .5, -.375 ** .5)],
        'octahedra': [(.5, .5, .5), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, -.5)]}


def poles(k, x):
    if k == 'deca':
        ring = [(a * x, c * x) for a, c in RING]
        h = math.sqrt(max(0, (ring[0][0] - ring[1][0]) ** 2 + (ring[0][1] - ring[1][1]) ** 2 - x * x))
        return [(0, 0, -h), (0, 0, h)] + [(a, c, 0) for a, c in ring]
    up = 2 - 2 * HIGH
    return [(a * x, c * x, e * x) for a, c, e in [(0, 0, -HIGH), (0, 0, 2 - HIGH)] + [(*q, 0) for q in RING] + [(-a, -c, up) for a, c in RING]]


@st.composite
def solid(draw, flat=True):
    k = draw(st.sampled_from(KINDS))
    s = {'k': k, 'x': draw(M.rare(st.integers(5, 60), st.one_of(st.integers(1, 4), st.integers(61, 900), st.sampled_from([7.5, .5])), 8))}
    if k in ('sphere', 'cylinder', 'cone'):
        s['step'] = draw(st.sampled_from([15, 18, 20, 30, 36, 45, 60, 72, 90, 120, 25, 40, 50, 100] if k == 'sphere' else [15, 18, 20, 30, 36, 45, 60, 72, 90, 120]))
        if draw(st.integers(0, 14)) == 14:
            s['step'] = draw(st.sampled_from([3, 4, 5, 6, 8, 9, 10, 12] if k == 'sphere' else [1, 2, 3, 4, 5, 6, 8, 9, 10]))
        s['c'] = [draw(st.integers(-40, 40)) for _ in range(3)] if draw(st.booleans()) else [0, 0, 0]
        s['z'] = draw(M.rare(st.integers(4, 80), st.one_of(st.integers(1, 3), st.integers(81, 700), st.just(10.5)), 8))
    return s


def make(s):
    k, x = s['k'], s['x']
    if k == 'sphere':
        return s3.spherevertandsurface(s['c'], x, s['step'])
    if k == 'cylinder':
        return s3.cylindervertandsurface(s['c'], x, s['z'], s['step'])
    if k == 'cone':
        return s3.conevertandsurface(s['c'], x, s['z'], s['step'])
    if k == 'deca':
        return s3.decahedvertandsurface(x)
    if k == 'icosa':
        return s3.icosahedvertandsurface(x)
    return [getattr(s3, {'tetrahedra': 'tetrahedravert', 'cube': 'cubevert', 'hexahedra': 'hexahedravert', 'octahedra': 'octahedravert'}[k])(x), s3.getshapesidedict()[k]]


@P.part(solid(), quick=500, rule='always')
def closed_surfaces(case):
    """Faces close the solid: every edge is walked once in each direction; all faces turn outwards; corners lie where they should."""
    v, faces = make(case)
    k, x = case['k'], case['x']
    what = f'{case}'
    key = lambda i: tuple(round(c, 6) + 0.0 for c in v[i])
    corners = {key(i) for i in range(len(v))}
    edges = {}
    for f in faces:
        need(all(0 <= i < len(v) for i in f), '%s: face %s names no corner', what, f)
        loop = [key(i) for i in f]
        loop = [p for p, q in zip(loop, loop[-1:] + loop[:-1]) if p != q]
        n = next((i for i in range(1, len(loop)) if loop[i:] == loop[:len(loop) - i] and i < len(loop) and k in ('cylinder', 'cone')), None)
        for e in {(p, q) for p, q in zip(loop, loop[1:] + loop[:1])} if n else [(p, q) for p, q in zip(loop, loop[1:] + loop[:1])]:
            edges[e] = edges.get(e, 0) + 1
    if k in ('cylinder', 'cone'):      # the round end overlaps itself by a step, its closing chord is not an edge
        edges = {e: 1 for e in edges if mag(sub(*e)) < 1e-6 or (e[1], e[0]) in edges or not chord(case, e)}
    for e, n in edges.items():
        need(n == 1 and edges.get((e[1], e[0])) == 1, '%s: edge %s is walked %s times one way, %s the other', what, e, n, edges.get((e[1], e[0]), 0))
    mid = [sum(c) / len(corners) for c in zip(*corners)]
    for f in faces:
        p = [v[i] for i in f]
        n = newell(p)
        need(mag(n) > 1e-9, '%s: face %s has no area', what, f)
        far = [dot(n, sub(q, p[0])) / mag(n) for q in p]
        need(max(map(abs, far)) < 1e-6 * x + 1e-9 or k == 'sphere', '%s: face %s is not flat', what, f)
        need(dot(n, sub(p[0], mid)) > 1e-9, '%s: face %s turns inwards', what, f)
    if k in FACES:
        same((len(v), len(faces)), FACES[k], what + ': corners and faces')
        if k in UNIT:
            need(all(mag(sub(p, [c * x for c in q])) < 1e-6 * x for p, q in zip(v, UNIT[k])), '%s: corners %s, expected %s', what, v, [[c * x for c in q] for q in UNIT[k]])
        else:
            need(all(min(mag(sub(p, q)) for p in v) <= 1e-6 * x for q in poles(k, x)), '%s: corners %s, expected %s', what, v, poles(k, x))
    elif k == 'sphere':
        for p in v:
            need(abs(mag(sub(p, case['c'])) - x) < 1e-6, '%s: %s is not %s from the center', what, p, x)
        t, ph = math.ceil(360 / case['step']), math.ceil(180 / case['step'])
        need(len(v) == (ph - 1) * t + 2, '%s: %s corners, expected %s', what, len(v), (ph - 1) * t + 2)
        need(len(faces) == ph * t, '%s: %s faces, expected %s', what, len(faces), ph * t)
    else:
        n, c, z = 360 // case['step'], case['c'], case['z'] / 2
        want = {tuple(round(q, 6) + 0.0 for q in (c[0] + x * math.cos(math.radians(a)), c[1] + x * math.sin(math.radians(a)), c[2] + e * z)) for a in range(0, 360, case['step']) for e in ((-1, 1) if k == 'cylinder' else (1,))}
        if k == 'cone':
            want.add((float(c[0]), float(c[1]), float(c[2] - z)))
        need(len(corners) == len(want) and all(any(mag(sub(p, q)) < 1e-5 for q in want) for p in corners), '%s: corners %s, expected %s', what, sorted(corners)[:6], sorted(want)[:6])
        del n
    return True


def chord(case, e):
    """An edge between two corners of one end of a cylinder or cone that are not neighbours on the ring."""
    if abs(e[0][2] - e[1][2]) > 1e-6:
        return False
    return abs(mag(sub(*e)) - 2 * case['x'] * math.sin(math.radians(case['step'] / 2))) > 1e-4


ang = st.one_of(st.sampled_from([0, 0, 90, 180, 45, -30, 360]), st.integers(-400, 400), st.integers(-4000, 4000).map(lambda k: k / 11))
num = st.one_of(st.integers(-50, 50), st.integers(-500, 500).map(lambda k: k / 7))


def turned(p, rot, disp):
    (r, q, w) = [math.radians(a) for a in rot]
    Y = [[-math.cos(w), 0, -math.sin(w)], [0, 1, 0], [-math.sin(w), 0, math.cos(w)]]
    R = [[math.cos(r), math.sin(r), 0], [-math.sin(r), math.cos(r), 0], [0, 0, 1]]
    X = [[1, 0, 0], [0, math.cos(q), math.sin(q)], [0, -math.sin(q), math.cos(q)]]
    for m in (Y, R, X):
        p = [dot(row, p) for row in m]
    return [a + c for a, c in zip(p, disp)]


@st.composite
def views(draw):
    return {'pts': [[draw(num) for _ in range(3)] for _ in range(draw(st.integers(1, 6)))], 'rot': [draw(ang) for _ in range(3)], 'disp': [draw(num), draw(num), draw(st.sampled_from([400, 250, -300]))],
            'd': draw(st.sampled_from([1, 200, 333.5]))}


@P.part(views(), quick=800, rule='some angle is not zero')
def perspectives(case):
    """Points are turned as a rigid body, moved and projected onto the plane at the distance."""
    pts, rot, disp, d = case['pts'], case['rot'], case['disp'], case['d']
    rv = s3.rotvec3D(*rot)
    for a, (s, c) in zip(rot, rv):
        need(abs(s - math.sin(math.radians(a))) < 1e-9 and abs(c - math.cos(math.radians(a))) < 1e-9, 'rotvec3D%s: %s', tuple(rot), rv)
    r, q = s3.perspective(pts, rv, disp, d)
    what = f'perspective({pts}, {rot}, {disp}, {d})'
    need(len(r) == len(q) == len(pts), '%s: %s and %s points', what, len(r), len(q))
    for p, t, u in zip(pts, r, q):
        w = turned(p, rot, disp)
        need(mag(sub(t, w)) < 1e-6, '%s: %s turns to %s, expected %s', what, p, t, w)
        need(abs(u[0] + d * w[0] / w[2]) < 1e-6 * d and abs(u[1] + d * w[1] / w[2]) < 1e-6 * d, '%s: %s is projected to %s', what, p, u)
    for i in range(len(pts)):
        for j in range(i):
            need(abs(mag(sub(r[i], r[j])) - mag(sub(pts[i], pts[j]))) < 1e-6, '%s: a distance changed', what)
    return any(a % 180 for a in rot)


@st.composite
def shown(draw):
    return {'s': draw(solid()), 'rot': [draw(ang) for _ in range(3)], 'z': draw(st.sampled_from([3.2, 5, 12, -4])), 'off': [draw(st.integers(-60, 60)), draw(st.integers(-60, 60))], 'd': draw(st.integers(1, 400)),
            't': [draw(num), draw(num)]}


def front(face, pts, mid):
    """Is the face in front, seen from the origin? None when it is too close to edge-on to tell."""
    p = [pts[i] for i in face]
    n = newell(p)
    if dot(n, sub(p[0], mid)) < 0:
        n = [-c for c in n]
    c = -dot(n, p[0]) / (mag(n) * max(map(mag, p)))
    return None if abs(c) < 1e-3 else c > 0


@P.part(shown(), quick=700, rule='always')
def visible_faces(case):
    """Exactly the faces in front are kept, in order, moved and with their normals."""
    v, faces = make(case['s'])
    x = case['s']['x']
    size = max(mag(sub(p, q)) for p in v for q in v[:1])
    rv = s3.rotvec3D(*case['rot'])
    disp = case['off'] + [case['z'] * (size + x + 80)]
    r, q = s3.perspective(v, rv, disp, case['d'])
    mid = [sum(c) / len(r) for c in zip(*r)]
    polys, norms = s3.gensides((r, q), case['t'], faces)
    what = f'gensides of {case}'
    need(len(polys) == len(norms), '%s: %s faces, %s normals', what, len(polys), len(norms))
    k = 0
    for f in faces:
        t = front(f, r, mid)
        if case['s']['k'] == 'sphere' and t is not None and not flat([r[i] for i in f]):
            t = None
        want = [[q[i][0] + case['t'][0], q[i][1] + case['t'][1]] for i in f]
        here = k < len(polys) and len(polys[k]) == len(want) and all(mag(sub(a, c)) < 1e-6 for a, c in zip(polys[k], want))
        need(t is None or here == t, '%s: face %s is %s and %s', what, f, 'in front' if t else 'behind', 'shown' if here else 'not shown')
        if here:
            n = cross(sub(r[f[1]], r[f[0]]), sub(r[f[2]], r[f[0]]))
            need(mag(sub(n, norms[k])) < 1e-6 * (1 + mag(n)), '%s: normal of face %s is %s, expected %s', what, f, norms[k], n)
            k += 1
    need(k == len(polys), '%s: %s more polygons', what, len(polys) - k)
    return True


def flat(p):
    n = newell(p)
    return all(abs(dot(n, sub(q, p[0]))) < 1e-6 * mag(n) for q in p)


@st.composite
def grids(draw):
    x, y = draw(M.rare(st.integers(-20, 20), st.integers(-700, 700), 12)), draw(M.rare(st.integers(-20, 20), st.integers(-700, 700), 12))
    return {'x1': x, 'y1': y, 'x2': x + draw(M.size(0, 17, 60)), 'y2': y + draw(M.size(0, 17, 60)), 'step': draw(M.size(1, 6, 20)), 'f': draw(st.lists(M.rare(st.integers(-3, 3), st.integers(-9999, 9999).map(lambda v: v / 4096), 3), min_size=3, max_size=3))}


@P.part(grids(), quick=500, rule='there are at least four patches')
def surface_plots(case):
    """A surface has a corner on the function for every grid point and a patch for every grid square."""
    a, c, d = case['f']
    fn = lambda x, y: a * x * y + c * y - d * x * x
    x1, y1, x2, y2, step = (case[k] for k in ('x1', 'y1', 'x2', 'y2', 'step'))
    what = f'surfplot3Dvertandsurface({x1}, {y1}, {x2}, {y2}, {step})'
    v, faces = s3.surfplot3Dvertandsurface(x1, y1, x2, y2, step, fn)
    xs, ys = list(range(x1, x2, step)), list(range(y1, y2, step))
    same(sorted(map(tuple, v)), sorted((x, y, fn(x, y)) for x in xs for y in ys), what + ': corners')
    got = []
    way = set()
    for f in faces:
        need(all(0 <= i < len(v) for i in f) and len(f) == 4, '%s: patch %s', what, f)
        p = [v[i][:2] for i in f]
        need(all(abs(s[0] - t[0]) + abs(s[1] - t[1]) == step for s, t in zip(p, p[1:] + p[:1])), '%s: patch %s is not a square of the grid', what, p)
        got.append((min(q[0] for q in p), min(q[1] for q in p)))
        way.add(newell([q + [0] for q in p])[2] > 0)
    same(sorted(got), sorted((x, y) for x in xs[:-1] for y in ys[:-1]), what + ': patches')
    need(len(way) < 2, '%s: patches turn both ways', what)
    return len(got) > 3


@st.composite
def scenes(draw):
    return {'s': draw(solid().filter(lambda s: s.get('step', 45) >= 30)), 'rot': [draw(ang) for _ in range(3)], 'z': draw(st.sampled_from([2.5, 5, 12])), 'bits': draw(st.sampled_from([24, 24, 8, 4, 1])), 'bg': draw(st.integers(0, 0xffffff)),
            'fac': [draw(st.integers(2, 20)) / 20 for _ in range(3)], 'solid': draw(st.booleans()), 'out': draw(st.booleans()), 'oc': draw(st.integers(0, 0xffffff)), 'via': draw(st.booleans())}


@P.part(scenes(), quick=160, rule='three or more faces are filled')
def scenes_shown(case):
    """The picture of a solid: faces in front filled by how they face the viewer, then their outlines."""
    v, faces = make(case['s'])
    mid0 = [sum(c) / len(v) for c in zip(*v)]
    v = [sub(p, mid0) for p in v]
    R = max(map(mag, v))
    rv = s3.rotvec3D(*case['rot'])
    disp = [0, 0, case['z'] * R]
    d = 25 * (case['z'] * R - R) / R
    r, q = s3.perspective(v, rv, disp, d)
    sides = s3.gensides((r, q), [31, 30], faces)
    bits = case['bits']
    img, bmp = blank(64, 62, bits)
    bg = M.mask(case['bg'], bits)
    for row in img.px:
        row[:] = [bg] * 64
    bmp = M.to_bmp(img)
    oc = M.mask(case['oc'], bits)
    what = f'picture of {case}'
    if case['via']:
        _, out = quiet(b.plot3Dsolid, bmp, [v, faces], case['solid'], case['fac'], case['out'], oc, rv, disp, d, [31, 30])
    else:
        _, out = quiet(b.plot3d, bmp, sides, case['solid'], case['fac'], case['out'], oc)
    need(out == '', '%s: printed %s', what, out)
    layers = []
    n = 0
    polys = [[[round(c) for c in p] for p in poly] for poly in sides[0]]
    if case['solid']:
        for poly, nm in zip(polys, sides[1]):
            must, may = hull_rows(poly, 64, 62)
            lum = math.trunc(nm[2] / mag(nm) * 128) + 127 if mag(nm) else 127
            layers.append((must, may, [lum * f for f in case['fac']]))
            n += bool(must)
    if case['out']:
        edge = {(x, y) for poly in polys for p, t in zip(poly, poly[1:] + poly[:1]) for x in range(min(p[0], t[0]) - 1, max(p[0], t[0]) + 2) for y in range(min(p[1], t[1]) - 1, max(p[1], t[1]) + 2)
                if S.seg_dist(x, y, p, t) < 1.01}
        got = M.parse(bmp)
        for poly in polys:
            for p, t in zip(poly, poly[1:] + poly[:1]):
                k = max(abs(t[0] - p[0]), abs(t[1] - p[1]))
                for i in range(k + 1):
                    x, y = (p[0] + (t[0] - p[0]) * i / k, p[1] + (t[1] - p[1]) * i / k) if k else p
                    cells = [(math.floor(x) + u, math.floor(y) + w) for u in (-1, 0, 1, 2) for w in (-1, 0, 1, 2)]
                    need(any(math.hypot(c[0] - x, c[1] - y) < 1.01 and got.px[c[1]][c[0]] == oc for c in cells), '%s: the outline is missing at %.1f,%.1f', what, x, y)
        rgb = ((oc >> 16) & 255, oc >> 8 & 255, oc & 255) if bits == 24 else img.pal[oc]
        layers.append((set(), edge, [float(c) for c in rgb]))
    if not layers:
        same(M.parse(bmp).px, img.px, what)
        return False
    S.layered(bmp, img, layers, what, 2.001 + 1.0)
    return n > 2


@P.part(st.tuples(st.lists(num, min_size=9, max_size=9), st.integers(1, 300), M.rare(st.sampled_from([18, 20, 25, 30, 36, 40, 45, 50, 60, 72, 90, 100, 120]), st.sampled_from([10, 12, 15]), 12)).map(list), quick=90, rule='always')
def pieces(case):
    """The corners of a sphere are the different points of its grid of angles and its lowest point; levels and sides of planes are those of the points."""
    v, r, step = case
    c = v[:3]
    got = s3.spherevert(c, r, step)
    want = [[0, 0, r], [0, 0, -r]] + [[r * math.sin(math.radians(p)) * math.cos(math.radians(t)), r * math.sin(math.radians(p)) * math.sin(math.radians(t)), r * math.cos(math.radians(p))]
                                      for p in range(step, 180, step) for t in range(0, 360, step)]
    what = f'sphere of {r} at {c} by {step} degrees'
    left = {}
    for p in got:
        left.setdefault(tuple(round(q, 4) for q in sub(p, c)), []).append(p)
    for p in want:
        near = [k for k in left if max(abs(a - e) for a, e in zip(k, p)) < 2e-4]
        need(near, '%s: %s is missing', what, p)
    for k in left:
        need(any(max(abs(a - e) for a, e in zip(k, p)) < 2e-4 for p in want), '%s: %s is no corner', what, k)
    need(len(set(map(tuple, got))) == len(got), '%s: a corner comes twice', what)
    pts = [[v[i], v[j], v[k] // 7] for i, j, k in ((0, 1, 2), (3, 4, 5), (6, 7, 8), (1, 3, 5), (2, 4, 6), (0, 4, 8), (1, 4, 2))]
    pts = [p for i, p in enumerate(pts) if p not in pts[:i]]
    zs, at = s3.zlevelcoords(pts)
    same((list(zs), {z: list(i) for z, i in at.items()}), (list(dict.fromkeys(p[2] for p in pts)), {z: [i for i, p in enumerate(pts) if p[2] == z] for z in {p[2] for p in pts}}), f'levels of {pts}')
    a, d, e = v[:3], v[3:6], v[6:]
    det = dot(a, cross(d, e))
    need(abs(s3.surfacetest(a, d, e) + det) <= 1e-9 * (1 + mag(a) * mag(d) * mag(e)), 'surfacetest of %s is %s, expected %s', v, s3.surfacetest(a, d, e), -det)
    return True
