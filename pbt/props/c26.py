"""C26 escape-time fractals: every pixel of the area shows the value of its point of the domain."""
import cmath, math, os
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
import pythonbmp.fractals as F
from pythonbmp.colors import colormix

P = Prop('C26', ['a point whose value changes when it is moved by 1e-11 is left out: there rounding decides'])


def esc(f, z, n, r=2.0):
    for i in range(n):
        z = f(z)
        if abs(z) > r:
            return i
    return n


def summed(f, z, terms, lim, n):
    s = 0.0
    for i in range(terms):
        z = f(z)
        s += z.imag
        if abs(s) > lim:
            return i % n
    return n


def bio(f):
    def g(p, q, c, d, n):
        z = complex(p, q)
        for i in range(n):
            z = f(z, d, c)
            re, im = abs(z.real) > 5, abs(z.imag) > 5
            if re or im:
                return i if re and im else n
        return n
    return g


def variant(p, q, c, d, n):
    z = complex(p, q)
    for _ in range(n):
        z = z ** d + c
        if abs(z.real) > 5 or abs(z.imag) > 5:
            return round(abs(z)) % n
    return n


def tet(p, q, d, n):
    z, s = complex(p, q), 0.0
    for i in range(d):
        try:
            z = z ** z
            s += z.imag
            if abs(s) > d:
                return i % n
        except OverflowError:
            return i % n
    return n


def dragon(p, q, d, n):
    z, s = complex(p, q), 0.0
    w = cmath.exp(2j * math.pi * d)
    for i in range(65):
        z = z * z + w * z
        s += abs(z.imag)
        if s > 65:
            return i % n
    return n


def ngon(p, q, c, m, n):
    z = complex(p, q)
    for i in range(n):
        if z == 0:
            return i
        z = (z ** m + c) / z
        if abs(z) > 2:
            return i
    return n


def brot(p, q, d, n):
    c = complex(p, q)
    return esc(lambda z: z ** d + c, 0j, n)


def corn(p, q, d, n):
    c = complex(p, q)
    return esc(lambda z: z.conjugate() ** d + c, 0j, n)


def sgn(v):
    return (v > 0) - (v < 0)


def julia(p, q, c, d, n):
    return esc(lambda z: z ** d + c, complex(p, q), n)


u16 = st.integers(-24, 24).map(lambda k: k / 16)
cx = st.one_of(st.tuples(u16, u16).map(list), st.sampled_from([[-.4, .6], [.285, .01], [-.8, .156], [0, .5], [1, .3], [.5, 0.]]))
pw = st.sampled_from([2, 3, 4, 5, 2.5, 3.7, 1.5])
ipw = st.sampled_from([1, 2, 3, 4, 6, 2.5, .5])
rad = st.sampled_from([.5, 1, 1.5, 2.25, 4])
deg = M.rare(st.integers(2, 20), st.integers(21, 90), 12)
xd = M.rare(st.integers(1, 40), st.integers(41, 300), 12)
frac = st.integers(1, 60).map(lambda k: k / 61)
none = st.nothing()
BIO = {'': lambda z, d, c: z ** d + c, 'phasevariant': lambda z, d, c: z ** (d + abs(cmath.phase(z))) + c}
for _k, _f in (('sin', cmath.sin), ('cos', cmath.cos), ('sinh', cmath.sinh), ('cosh', cmath.cosh), ('tan', cmath.tan), ('tanh', cmath.tanh), ('exp', cmath.exp), ('2ndtetration', lambda z: z ** z)):
    BIO[_k] = (lambda f: lambda z, d, c: f(z) + z ** d + c)(_f)
BIO['zconjugate'] = lambda z, d, c: z.conjugate() ** d + c

# name: (reference, parameters, value function, iterator, plot, save, default depth, typical span of the domain)
T = {
    'mandelbrot': (lambda p, q, n: brot(p, q, 2, n), [], None, 'itermandelbrot', 'mandelbrot', 'savemandelbrotfractal2file', 8, 2),
    'tricorn': (lambda p, q, n: corn(p, q, 2, n), [], None, 'itertricorn', 'tricorn', 'savetricornfractal2file', 8, 2),
    'multibrot': (brot, [pw], 'multibrot', 'itermultibrot', 'multibrot', 'savemultibrotfractal2file', 8, 2),
    'multicorn': (corn, [pw], 'multicorn', 'itermulticorn', 'multicorn', 'savemulticornfractal2file', 8, 2),
    'multicircle': (lambda p, q, d, n: round(abs(complex(p, q)) ** d) % n, [ipw], 'multicircle', 'itermulticircle', 'multicircle', 'savemulticirclefractal2file', 8, 20),
    'multihyperbola': (lambda p, q, d, n: round(abs(p ** d - q ** d)) % n, [ipw], 'multihyperbola', 'itermultihyperbola', 'multihyperbola', 'savemultihyperbolafractal2file', 8, 20),
    'multisuperellipse': (lambda p, q, d, n: abs(p ** d + q ** d) % n, [ipw], 'multisuperellipse', 'itermultisuperellipse', 'multisuperellipse', 'savemultisuperellipsefractal2file', 24, 20),
    'astroid': (lambda p, q, r, n: round(abs((p * p + q * q - r * r) ** 3 + 27 * (p * q * r) ** 2)) % n, [rad], 'astroid', 'iterastroid', 'astroidfractal', 'saveastroidfractal2file', 8, 4),
    'lemniscate': (lambda p, q, r, n: math.floor(abs((p * p + q * q) ** 2 - 2 * r * r * (p * p - q * q))) % n, [rad], 'lemniscate', 'iterlemniscate', 'lemniscatefractal',
                   'savelemniscatefractal2file', 8, 4),
    'tetration': (tet, [deg], 'tetrationfn', 'itertetration', 'tetrationfractal', 'savetetrationfractal2file', 4, 4),
    'xor': (lambda p, q, d, n: (int(p) ^ int(q)) % d % n, [xd], 'xorfn', 'iterxorfractal', 'xorfractal', 'savexorfractal2file', 24, 0),
    'xordiv': (lambda p, q, d, n: (int(p) ^ int(q)) // d % n, [xd], 'xordivfn', 'iterxordivfractal', 'xordivfractal', 'savexordivfractal2file', 24, 0),
    'sinjulia': (lambda p, q, c, n: summed(lambda z: c * cmath.sin(z), complex(p, q), 50, 50, n), [cx], 'sinjulia', 'itersinjulia', 'sinjulia', 'savesinjulia2file', 8, 6),
    'cosjulia': (lambda p, q, c, n: summed(lambda z: c * cmath.cos(z), complex(p, q), 50, 50, n), [cx], 'cosjulia', 'itercosjulia', 'cosjulia', 'savecosjulia2file', 8, 6),
    'spiraljulia': (lambda p, q, c, n: esc(lambda z: cmath.tan(z * z + c), complex(p, q), n), [cx], 'spiraljulia', 'iterspiraljulia', 'spiraljulia', 'savespiraljulia2file', 8, 2),
    'lambda': (lambda p, q, c, n: esc(lambda z: c * (z - z * z), complex(p, q), n), [cx], 'lambdafn', 'iterlamdbafractal', 'lambdafractal', 'savelambdafractal2file', 8, 2),
    'barnsleytree': (lambda p, q, c, n: esc(lambda z: c * (z - sgn(z.real)), complex(p, q), n), [cx], 'barnsleytree', 'iterbarnsleytree', 'barnsleytree', 'savebarnsleytreefractal2file', 8, 2),
    'marekdragon': (dragon, [frac], None, 'itermarekdragon', 'marekdragon', 'savemarekdragon2file', 8, 2),
    'julia': (lambda p, q, c, n: julia(p, q, c, 2, n), [cx], None, 'iterjulia', 'julia', 'savejuliafractal2file', 8, 2),
    'multijulia': (julia, [cx, pw], 'multijulia', 'itermultijulia', 'multijulia', 'savemultijuliafractal2file', 8, 2),
    'ngon': (ngon, [st.sampled_from([.1, .2, -.3, .5, 1]), pw], 'ngonfunc', 'iterngonfractal', 'ngonfractal', 'savengonfractal2file', 8, 2),
    'biomorphvariant': (variant, [cx, pw], 'multibiomorphvariant', 'itermultibiomorphvariant', 'multibiomorphvariant', 'savemultibiomorphvariantfractal2file', 8, 4),
}
for _k, _f in BIO.items():
    _n = f'multi{_k}biomorph' if _k != 'phasevariant' else 'multibiomorphphasevariant'
    T[_n] = (bio(_f), [cx, pw], _n, 'iter' + _n, _n, f'save{_n}fractal2file', 8 if _k == 'phasevariant' else 4, 4)


def arg(v):
    return complex(*v) if isinstance(v, list) else v


@st.composite
def fractal(draw, w, h, n):
    """Name, parameters, domain of a w x h area, most iterations."""
    span = T[n][7]
    if span:
        k = draw(st.sampled_from([1, 1, 2, 8]))
        a = draw(st.integers(-32 * span // k, 24 * span // k)) / 16
        c = draw(st.integers(-32 * span // k, 24 * span // k)) / 16
        dom = [a + draw(st.integers(1, 32 * span // k)) / 16, a, c + draw(st.integers(1, 32 * span // k)) / 16, c]
        if draw(st.integers(0, 7)) == 0:
            dom = [dom[1], dom[0], dom[3], dom[2]]
    else:
        s = draw(st.sampled_from([1, 1, 2, 5, .5, .25, 17]))
        a, c = draw(st.integers(-20, 300)), draw(st.integers(-20, 300))
        dom = [a + s * w, a, c + s * h, c]
    return {'n': n, 'p': [draw(p) for p in T[n][1]], 'dom': dom, 'it': draw(st.one_of(st.integers(1, 40), st.sampled_from([255, 256, 300, 1000])))}


def values(f, w, h):
    """{(i, j): value or None where rounding decides} over a w x h area, or None when the arithmetic fails."""
    ref, _, _, _, _, _, _, span = T[f['n']]
    a = [arg(v) for v in f['p']]
    pmax, pmin, qmax, qmin = f['dom']
    out = {}
    for j in range(h):
        for i in range(w):
            p, q = pmin + (pmax - pmin) * i / w, qmin + (qmax - qmin) * j / h
            if not span:
                out[i, j] = ref(p, q, *a, f['it'])
                continue
            e = 1e-11 * (1 + abs(p) + abs(q))
            vs = [ref(p + x, q + y, *a, f['it']) for x, y in ((0, 0), (e, e), (-e, 0), (0, -e), (-e, e))]
            if f['n'] == 'multisuperellipse':
                out[i, j] = vs[0] if max(vs) - min(vs) < 1e-3 else None
            else:
                out[i, j] = vs[0] if all(v == vs[0] for v in vs) else None
    return out


def agrees(v, want, what):
    if want is not None:
        need(abs(v - want) < 1e-6 * (1 + abs(want)), '%s: value %s, expected %s', what, v, want)


@st.composite
def points(draw, n):
    w, h = draw(st.integers(1, 9)), draw(st.integers(1, 7))
    return {'w': w, 'h': h, 'x': draw(st.integers(0, 40)), 'y': draw(st.integers(0, 40)), 'f': draw(fractal(w, h, n)), 'swap': draw(st.integers(0, 3))}


def fails(f, *a):
    try:
        return f(*a), False
    except (OverflowError, ZeroDivisionError, ValueError):
        return None, True


@P.part([points(n) for n in sorted(T)], quick=2500, rule='at least three values occur')
def point_values(case):
    """Iterators name every point of their area once, with the value of the equation at its place in the domain."""
    w, h, x, y, f = case['w'], case['h'], case['x'], case['y'], case['f']
    ref, bad = fails(values, f, w, h)
    if bad:
        return False
    xs, ys = (x, x + w), (y, y + h)
    if case['swap'] & 1:
        xs = xs[::-1]
    if case['swap'] & 2:
        ys = ys[::-1]
    a = [arg(v) for v in f['p']]
    what = f'{T[f["n"]][3]}(({xs[0]},{ys[0]})-({xs[1]},{ys[1]}), {f["p"]}, {f["dom"]}, {f["it"]})'
    got, bad = fails(lambda: list(getattr(F, T[f['n']][3])(xs[0], ys[0], xs[1], ys[1], *a, f['dom'], f['it'])))
    if bad and None in ref.values():
        return False
    need(not bad, '%s: failed', what)
    same(sorted((p[0], p[1]) for p in got), sorted((x + i, y + j) for i, j in ref), what + ': points')
    for px, py, v in got:
        agrees(v, ref[px - x, py - y], f'{what} at {px},{py}')
    fn = T[f['n']][2]
    if fn:
        pmax, pmin, qmax, qmin = f['dom']
        for (i, j), v in ref.items():
            if v is not None:
                agrees(getattr(F, fn)(pmin + (pmax - pmin) * i / w, qmin + (qmax - qmin) * j / h, *a, f['it']), v, f'{fn} {f["p"]} {f["it"]} of point {i},{j} of {f["dom"]}')
    return len(set(ref.values())) > 2


ig = st.integers(-7, 7)
gauss = st.tuples(ig, ig).map(list)
EXACT = {'mandelbrot': [], 'tricorn': [], 'multibrot': [st.integers(1, 4)], 'multicorn': [st.integers(1, 4)], 'multihyperbola': [st.integers(1, 4)], 'multisuperellipse': [st.integers(1, 4)],
         'astroid': [st.integers(1, 4)], 'lemniscate': [st.integers(1, 4)], 'lambda': [gauss], 'barnsleytree': [gauss], 'julia': [gauss], 'multijulia': [gauss, st.integers(1, 4)],
         'biomorphvariant': [gauss, st.integers(1, 4)], 'multibiomorph': [gauss, st.integers(1, 4)], 'multizconjugatebiomorph': [gauss, st.integers(1, 4)]}


@st.composite
def wholes(draw, n):
    w, h = draw(st.sampled_from([1, 2, 4, 8])), draw(st.sampled_from([1, 2, 4, 8]))
    a, c = draw(st.integers(-6, 3)), draw(st.integers(-6, 3))
    return {'w': w, 'h': h, 'n': n, 'p': [draw(p) for p in EXACT[n]], 'dom': [a + w, a, c + h, c], 'it': draw(st.integers(1, 30))}


@P.part([wholes(n) for n in sorted(EXACT)], quick=1200, rule='some point comes to lie exactly at the limit, or there are three values')
def whole_points(case):
    """At whole numbers, where nothing is rounded, every value is exact, on the escape limit too: only what lies beyond it has escaped."""
    w, h, n = case['w'], case['h'], case['n']
    a = [arg(v) for v in case['p']]
    pmin, qmin = case['dom'][1], case['dom'][3]
    ref, bad = fails(lambda: {(i, j): T[n][0](float(pmin + i), float(qmin + j), *a, case['it']) for j in range(h) for i in range(w)})
    if bad:
        return False
    got = {(p[0], p[1]): p[2] for p in getattr(F, T[n][3])(0, 0, w, h, *a, case['dom'], case['it'])}
    what = f'{T[n][3]} {case["p"]} of {w}x{h} points from {pmin}{qmin:+d}i, {case["it"]}'
    same(got, ref, what)
    if T[n][2]:
        for (i, j), v in ref.items():
            same(getattr(F, T[n][2])(float(pmin + i), float(qmin + j), *a, case['it']), v, f'{T[n][2]} {case["p"]} at {pmin + i}{qmin + j:+d}i, {case["it"]}')
    return len(set(ref.values())) > 2


def shade(v, bits, fac):
    """Acceptable stored values of a pixel of value v."""
    if bits == 24:
        return {colormix((255 - v + e) * 20 % 256, fac) for e in ((0,) if isinstance(v, int) else (0, 1e-7, -1e-7))}
    out = set()
    for e in (0,) if isinstance(v, int) else (0, 1e-7, -1e-7):
        k = int(v + e)
        m = 1 << bits
        out.add(k % m if bits == 1 or len(fac) == 3 else (m - 1 - k) % m)
    return out


factors = st.lists(st.integers(0, 20).map(lambda k: k / 20), min_size=3, max_size=3)
dichro = st.lists(st.integers(0, 0xffffff), min_size=2, max_size=2)


BIG = [(40, 3), (3, 40), (24, 18), (130, 2), (2, 130), (260, 1), (1, 260), (17, 17)]


def big(draw, img):
    if draw(st.integers(0, 14)) == 14:
        img['w'], img['h'] = draw(st.sampled_from(BIG))


@st.composite
def pictures(draw, n):
    img = draw(M.images(maxw=12, maxh=9, big=False))
    big(draw, img)
    w, h = img['w'], img['h']
    x1, x2 = sorted(draw(st.lists(M.coord(w + 1, draw(st.sampled_from([0, 0, 0, 3]))), min_size=2, max_size=2, unique=True)))
    y1, y2 = sorted(draw(st.lists(M.coord(h + 1, draw(st.sampled_from([0, 0, 0, 3]))), min_size=2, max_size=2, unique=True)))
    return {'img': img, 'r': [x1, y1, x2, y2], 'f': draw(fractal(x2 - x1, y2 - y1, n)), 'fac': draw(factors if img['bits'] == 24 else st.one_of(factors, dichro))}


@P.part([pictures(n) for n in sorted(T)], quick=2500, rule='at least three values occur')
def plots(case):
    """Plotted into a bitmap, the area shows the colors of the values and nothing else changes."""
    x1, y1, x2, y2 = case['r']
    f, img = case['f'], M.from_case(case['img'])
    ref, bad = fails(values, f, x2 - x1, y2 - y1)
    if bad:
        return False
    bmp = M.to_bmp(img)
    what = f'{T[f["n"]][4]}({case["r"]}, {f["p"]}, {f["dom"]}, {case["fac"]}, {f["it"]}) on {img.w}x{img.h} {img.bits}-bit'
    _, bad = fails(quiet, getattr(b, T[f['n']][4]), bmp, x1, y1, x2, y2, *[arg(v) for v in f['p']], f['dom'], case['fac'], f['it'])
    if bad and None in ref.values():
        return False
    need(not bad, '%s: failed', what)
    got = M.parse(bmp)
    same((got.w, got.h, got.bits, got.pal), (img.w, img.h, img.bits, img.pal), what + ': header')
    for y in range(img.h):
        for x in range(img.w):
            k = (x - x1, y - y1)
            if k not in ref:
                need(got.px[y][x] == img.px[y][x], '%s: pixel %s,%s outside the area changed', what, x, y)
            elif ref[k] is not None:
                want = shade(ref[k], img.bits, case['fac'])
                need(got.px[y][x] in want, '%s: pixel %s,%s is %s, its point has value %s (%s)', what, x, y, got.px[y][x], ref[k], sorted(want))
    return len(set(ref.values())) > 2


@st.composite
def files(draw, n):
    w, h = draw(st.integers(1, 9)), draw(st.integers(1, 7))
    if draw(st.integers(0, 14)) == 14:
        w, h = draw(st.sampled_from(BIG))
    opt = draw(st.sampled_from([0, 1, 2, 2, 2]))
    f = draw(fractal(w, h, n))
    bits = draw(st.sampled_from(M.BITS)) if opt else T[f['n']][6]
    return {'w': w, 'h': h, 'f': f, 'opt': opt, 'bits': bits, 'fac': draw(factors if bits == 24 else st.one_of(factors, dichro))}


@P.part([files(n) for n in sorted(T)], quick=2000, rule='at least three values occur')
def saved(case):
    """Saved to a file: the size and depth asked for, the palette of the factors or of the two colors, the values of the domain."""
    w, h, f, bits = case['w'], case['h'], case['f'], case['bits']
    if case['opt'] < 2:
        f = dict(f, it=255)
    ref, bad = fails(values, f, w, h)
    if bad:
        return False
    a = [[], [bits], [bits, f['it']]][case['opt']]
    what = f'{T[f["n"]][5]}({w}, {h}, {f["p"]}, {f["dom"]}, {case["fac"]}, {a})'
    if os.path.exists('o.bmp'):
        os.remove('o.bmp')
    _, bad = fails(quiet, getattr(b, T[f['n']][5]), 'o.bmp', w, h, *[arg(v) for v in f['p']], f['dom'], case['fac'], *a)
    if bad and None in ref.values():
        return False
    need(not bad and os.path.exists('o.bmp'), '%s: failed', what)
    got = M.parse(open('o.bmp', 'rb').read())
    same((got.w, got.h, got.bits), (w, h, bits), what + ': geometry')
    if bits < 24:
        t = b.newBMP(1, 1, bits)
        if len(case['fac']) == 3:
            b.setBMP2invshiftedmonochrome(t, case['fac'])
        else:
            b.setBMP2dichromaticpal(t, *case['fac'])
        same(got.pal, M.parse(t).pal, what + ': palette')
    for (x, y), v in ref.items():
        if v is not None:
            want = shade(v, bits, case['fac'])
            need(got.px[y][x] in want, '%s: pixel %s,%s is %s, its point has value %s (%s)', what, x, y, got.px[y][x], v, sorted(want))
    return len(set(ref.values())) > 2


POLY = {3: (3, 0, 1), 4: (4, 0, 1), 4.1: (4, 1, 0), 5: (5, 0, 1), 5.1: (5, 1, 0), 5.3: (5, 3, 0), 6: (6, 0, 1), 6.3: (6, 3, 1)}     # z^n - z^k - c


def poly(key):
    n, k, c = POLY[key]
    return ((lambda z: z ** n - (z ** k if k else 0) - c), (lambda z: n * z ** (n - 1) - (k * z ** (k - 1) if k else 0)))


def product(roots):
    def fp(z):
        s = 0
        for i in range(len(roots)):
            t = 1
            for j, r in enumerate(roots):
                if j != i:
                    t *= z - r
            s += t
        return s

    def f(z):
        t = 1
        for r in roots:
            t *= z - r
        return t
    return f, fp


def newton(z, f, fp, n):
    for i in range(n):
        try:
            d = fp(z)
        except OverflowError:
            return None
        if d == 0:
            return None
        try:
            s = f(z) / d
        except OverflowError:
            return None
        if abs(s) < 1e-8:
            return z, i
        z -= s
    return None


@st.composite
def newtons(draw):
    img = draw(M.images(bits=(24, 24, 8, 4, 1), maxw=9, maxh=8, big=False))
    big(draw, img)
    w, h = img['w'], img['h']
    x1, x2 = sorted(draw(st.lists(M.coord(w + 1, 0), min_size=2, max_size=2, unique=True)))
    y1, y2 = sorted(draw(st.lists(M.coord(h + 1, 0), min_size=2, max_size=2, unique=True)))
    a, c = draw(st.integers(-32, 16)) / 16, draw(st.integers(-32, 16)) / 16
    k = draw(st.sampled_from(sorted(POLY)))
    if draw(st.integers(0, 2)) == 0:        # a polynomial of given roots, some of them close to each other
        k = draw(st.lists(st.tuples(st.integers(-2, 2), st.sampled_from([0, .025, .05, .1, .5]), st.integers(-1, 1)), min_size=2, max_size=4, unique=True)
                 .map(lambda v: [[p + q, r] for p, q, r in v]).filter(lambda v: all(abs(complex(*p) - complex(*q)) > .02 for i, p in enumerate(v) for q in v[:i])))
    return {'img': img, 'r': [x1, y1, x2, y2], 'k': k, 'dom': [a + draw(st.integers(1, 48)) / 16, a, c + draw(st.integers(1, 48)) / 16, c],
            'fac': draw(st.lists(factors, min_size=6, max_size=6)), 'it': draw(st.sampled_from([4, 10, 40, 255])), 'save': draw(st.integers(0, 2)) == 0, 'nf': draw(st.integers(1, 6))}


@P.part(newtons(), quick=1200, rule='two roots are reached')
def newton_basins(case):
    """Newton fractals: pixels take the factors of the root their point converges to, shaded by the steps needed; others stay."""
    x1, y1, x2, y2 = case['r']
    if isinstance(case['k'], list):
        d = f, fp = product([complex(*r) for r in case['k']])
    else:
        f, fp = poly(case['k'])
        d = F.funcparamdict()[case['k']]
    for z in (.3 + .7j, -1.1 + .2j, 2 - .5j):
        need(abs(d[0](z) - f(z)) < 1e-9 and abs(d[1](z) - fp(z)) < 1e-9, 'function %s of the list is not its polynomial and derivative', case['k'])
    fac = case['fac']
    if case['save']:
        img = M.Img(x2 - x1, y2 - y1, case['img']['bits'])
        x2, y2, x1, y1 = x2 - x1, y2 - y1, 0, 0
        fac = fac if img.bits == 24 else fac[:case['nf']]
        what = f'savenewtonsfractal2file({x2}, {y2}, {case["k"]}, {case["dom"]}, {case["fac"]}, {img.bits}, {case["it"]})'
        roots, _ = quiet(b.savenewtonsfractal2file, 'o.bmp', x2, y2, d, case['dom'], fac, img.bits, case['it'])
        got = M.parse(open('o.bmp', 'rb').read())
        same((got.w, got.h, got.bits), (img.w, img.h, img.bits), what + ': geometry')
    else:
        img = M.from_case(case['img'])
        bmp = M.to_bmp(img)
        what = f'newtonsfractal({case["r"]}, {case["k"]}, {case["dom"]}, {case["fac"]}, {case["it"]}) on {img.w}x{img.h} {img.bits}-bit'
        roots, _ = quiet(b.newtonsfractal, bmp, x1, y1, x2, y2, d, case['dom'], fac, case['it'])
        got = M.parse(bmp)
        same(got.pal, img.pal, what + ': palette')
    if roots is None and case['save']:
        roots = []
    else:
        for i, r in enumerate(roots):
            need(abs(f(r)) < 1e-4, '%s: %s is not a root', what, r)
            need(all(abs(r - s) > .01 for s in roots[:i]), '%s: root %s twice', what, r)
    pmax, pmin, qmax, qmin = case['dom']
    w, h = x2 - x1, y2 - y1
    seen = set()
    for y in range(img.h):
        for x in range(img.w):
            i, j = x - x1, y - y1
            v = got.px[y][x]
            if not (0 <= i < w and 0 <= j < h):
                need(v == img.px[y][x], '%s: pixel %s,%s outside the area changed', what, x, y)
                continue
            z = complex(pmin + (pmax - pmin) * i / w, qmin + (qmax - qmin) * j / h)
            rs = [newton(z + e, f, fp, case['it']) for e in (0, 1e-11, -1e-11, 1e-11j, -1e-11j)]
            if any(r is None for r in rs):
                if all(r is None for r in rs):
                    need(v == img.px[y][x], '%s: pixel %s,%s changed though its point does not converge', what, x, y)
                continue
            if any(abs(r[0] - rs[0][0]) > 1e-3 or r[1] != rs[0][1] for r in rs):
                continue
            r, n = rs[0]
            if img.bits < 24:
                want = (1 << img.bits) - 1 - n % (1 << img.bits)
            else:
                k = [t for t, s in enumerate(roots) if abs(s - r) < .011]
                need(len(k) == 1, '%s: the root %s of pixel %s,%s is not among %s', what, r, x, y, roots)
                want = colormix((255 - n) * 20 % 256, fac[k[0]])
                seen.add(k[0])
            need(v == want, '%s: pixel %s,%s is %#x, expected %#x (root %s after %s steps)', what, x, y, v, want, r, n)
            seen.add(n)
    return len(seen) > 2


DOMAINS = {'maxdefault': (1.75, -1.75, 1.5, -1.5), 'maxeqdim': (1.75, -1.75, 1.75, -1.75), 'middefault': (.75, -1.25, 1.25, -1.25),
           'mindefault': (.75, -.75, .5, -.5), 'mineqdim': (.5, -.5, .5, -.5), 'custom1': (-.5, -.7, -.5, -.7)}


@P.part(st.sampled_from(sorted(DOMAINS)), quick=10, rule='always')
def named_domains(key):
    """The predefined domains."""
    d = F.fractaldomainparamdict()
    same(sorted(d), sorted(DOMAINS), 'names of the domains')
    same(list(d[key]), list(DOMAINS[key]), f'domain {key}')
    return True
