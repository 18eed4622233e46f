"""C30 optional arguments: left out, they count as the value the documentation gives."""
import os
import shutil
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
import pythonbmp.colors as C
import pythonbmp.fractals as F
import pythonbmp.mathlib as ml
from pythonbmp.fonts import font8x8, font8x14
from . import c16
from .c26 import T

P = Prop('C30', ['the documented values are those in the signatures of the pinned tree'])
unit = st.integers(0, 20).map(lambda k: k / 20)
fac = st.tuples(unit, unit, unit).map(list)
rgb = st.integers(0, 0xffffff)


def readfile():
    need(os.path.exists('o.bmp'), 'no file saved')
    d = open('o.bmp', 'rb').read()
    os.remove('o.bmp')
    return d


def both(fn, args, defaults, what, result):
    """fn called with the first k defaults given explicitly, for every k, does the same."""
    ref = None
    for k in range(len(defaults), -1, -1):
        got = result(fn, list(args) + list(defaults[:k]))
        if ref is None:
            ref = got
        else:
            need(got == ref, '%s(%s): %d of the optional arguments given as %s differs from all of them given', what, args, k, defaults)
    return ref


# ---- saved fractals

DEPTH = {k: t[6] for k, t in T.items()}


@st.composite
def fractals(draw, n):
    t = T[n]
    p = [draw(s) for s in t[1]]
    if t[7]:
        wide = n in ('multicircle', 'multihyperbola', 'multisuperellipse', 'astroid', 'lemniscate') and draw(st.booleans())
        x, y, d = draw(st.integers(-4, 4)) / 8, draw(st.integers(-4, 4)) / 8, draw(st.sampled_from([30, 90, 400] if wide else [.1, .5, 1, 1.5]))
        dom = [x + d, x - d, y + d, y - d]
    else:
        dom = [draw(st.integers(20, 3000)), 0, draw(st.integers(20, 3000)), 0]
        p = [draw(st.sampled_from([1, 3, 400, 1000]))]
    return {'n': n, 'w': draw(st.integers(4, 12)), 'h': draw(st.integers(4, 10)), 'p': p, 'dom': dom, 'fac': draw(fac)}


def arg(v):
    return complex(*v) if isinstance(v, list) else v


def saved(fn, a):
    try:
        quiet(fn, *a)
    except (OverflowError, ZeroDivisionError, ValueError):
        return None
    return readfile()


@P.part([fractals(n) for n in sorted(T)], quick=400, rule='the saved picture has three values or more')
def fractal_files(case):
    """A fractal saved without a depth or a limit has the documented depth and 255 steps."""
    t = T[case['n']]
    a = ['o.bmp', case['w'], case['h'], *[arg(v) for v in case['p']], case['dom'], case['fac']]
    d = both(getattr(b, t[5]), a, [t[6], 255], t[5], saved)
    if d is None:
        return False
    both(getattr(b, t[5]), a + [8 if t[6] == 24 else 24], [255], t[5], saved)
    img = M.parse(d)
    same(img.bits, t[6], t[5] + ': depth')
    return len({v for r in img.px for v in r}) > 2


GEN = {'savefractal2file': (0, 8), 'savemultifractal2file': (1, 24), 'savefractalwithparam2file': (1, 24), 'savefractalwith2param2file': (2, 24)}


@P.part(st.tuples(st.sampled_from(sorted(GEN)), st.integers(3, 10), st.integers(3, 10), fac, st.sampled_from([2, 3])).map(list), quick=80, rule='always')
def generic_files(case):
    """The general savers: with a plotting function or a value function and its parameters."""
    n, w, h, f, d = case
    k, bits = GEN[n]
    dom = [1.2, -1.7, 1.3, -1.1]
    if k == 0:
        a = ['o.bmp', w, h, b.mandelbrot, dom, f]
    elif k == 1:
        a = ['o.bmp', w, h, b.multibrot, d, dom, f]
    else:
        a = ['o.bmp', w, h, b.multijulia, complex(-.4, .6), d, dom, f]
    img = M.parse(both(getattr(b, n), a, [bits, 255], n, saved))
    same(img.bits, bits, n + ': depth')
    return True


@P.part(st.tuples(st.sampled_from([3, 4, 5, 5.1]) | st.integers(130, 150), st.integers(3, 8), st.integers(3, 8), fac).map(list), quick=40, rule='always')
def newton_files(case):
    k, w, h, f = case
    # above 100: Newton's method slowed down until it needs about 255 steps
    d = F.funcparamdict()[k] if k < 100 else (lambda z: z ** 3 - 1, lambda z: 3 * z * z * k / 10)
    a = ['o.bmp', w, h, d, [1.5, -1.5, 1.5, -1.5], [f] * 6]
    img = M.parse(both(b.savenewtonsfractal2file, a, [24, 255], 'savenewtonsfractal2file', saved))
    same(img.bits, 24, 'depth of savenewtonsfractal2file')
    return True


# ---- values with a limit

LIM = {'cosjulia': 50, 'sinjulia': 50, 'marekdragon': 65}
LIM.update({n: 5 for n in ('multi2ndtetrationbiomorph', 'multibiomorph', 'multibiomorphphasevariant', 'multibiomorphvariant', 'multicosbiomorph', 'multicoshbiomorph', 'multiexpbiomorph',
                           'multisinbiomorph', 'multisinhbiomorph', 'multitanbiomorph', 'multitanhbiomorph', 'multizconjugatebiomorph')})
co = st.integers(-400, 400).map(lambda k: k / 100)


@P.part([st.tuples(st.just(n), st.lists(st.tuples(co, co).map(list), min_size=10, max_size=40), st.tuples(co, co).map(list), st.sampled_from([2, 3, 2.5]), st.sampled_from([20, 100, 255])).map(list) for n in sorted(LIM)],
        quick=300, rule='at least three values occur')
def limits(case):
    """Escape-time values without a limit use the documented one."""
    n, pts, c, d, it = case
    seen = set()
    for p, q in pts:
        a = [p, q, (abs(c[0]) + .01) / 5, it] if n == 'marekdragon' else [p, q, complex(*c), it] if 'julia' in n else [p, q, complex(*c), d, it]

        def run(fn, a):
            try:
                return fn(*a)
            except (OverflowError, ZeroDivisionError, ValueError) as e:
                return type(e).__name__
        seen.add(both(getattr(F, n), a, [LIM[n]], n, run))
    return len(seen) > 2


@P.part(st.tuples(co, co, co, co, st.integers(0, 60)).map(list), quick=150, rule='always')
def lists(case):
    """Koch bump, Duffing attractor, matrices and Newton's method without their optional arguments."""
    x, y, u, v, n = case
    run = lambda fn, a: fn(*a)
    both(F.koch, [(x, y), (u, v)], [1 / (2 * 3 ** .5)], 'koch', lambda fn, a: [[round(t, 9) for t in p] for p in fn(*a)])
    if n % 10 == 0:
        both(F.duffingattractorlist, [], [0, 0, 0, .01, .25, .3, 1.0, 25000], 'duffingattractorlist', run)
    both(ml.initmatrix, [n % 7 + 1, n // 7 + 1], [0], 'initmatrix', run)
    k = x
    f, g = (lambda t: t ** 3 - k, lambda t: 3 * t * t + 1e-3 * (n % 2)) if n % 3 else (lambda t: t * t + abs(k) + 1, lambda t: 2 * t)

    def nm(fn, a):
        calls = []
        try:
            r = fn(a[0], lambda t: calls.append(t) or f(t), lambda t: g(t), *a[1:])
        except (OverflowError, ZeroDivisionError) as e:
            r = type(e).__name__
        return repr((r, calls))
    both(ml.newtonmethod, [complex(u, v)], [40, 1e-8], 'newtonmethod', nm)
    return True


# ---- text files

STR = sorted(t[1].__name__ for t in c16.STR if t[1] is not None)


@P.part([st.tuples(st.just(n), st.text('AgZ9 \n', min_size=1, max_size=5), st.integers(1, 2), st.integers(0, 1), st.integers(0, 3), st.integers(1, 0xffffff)).map(list) for n in STR], quick=200, rule='something is drawn')
def text_files(case):
    """A text saved without background and depth is drawn on black at 24 bits."""
    n, text, scale, pix, gap, c = case
    if not text.strip():
        text = 'A' + text
    a = ['o.bmp', text, scale, pix, gap, c, font8x8 if c % 2 else font8x14]
    d = both(getattr(b, n), a, [0, 24], n, saved)
    both(getattr(b, n), a + [0xff], [24], n, saved)
    from pythonbmp.chartools import enumletters
    both(b.plotstringfunc2file, a + [enumletters, b.plot8bitpattern], [0, 24], 'plotstringfunc2file', saved)
    both(b.plotstringverticalwithfn2file, a + [enumletters, b.plot8bitpattern], [0, 24], 'plotstringverticalwithfn2file', saved)
    img = M.parse(d)
    same(img.bits, 24, n + ': depth')
    need({v for r in img.px for v in r} <= {0, c}, '%s: colors other than %#x on black', n, c)
    return len({v for r in img.px for v in r}) > 1


@P.part(st.tuples(st.integers(0, 3), st.integers(12, 40), st.integers(12, 40), st.integers(0, 4), st.integers(-90, 90), st.integers(4, 30)).map(list), quick=80, rule='something is drawn')
def curve_files(case):
    """Hilbert curve and Koch snowflake saved without options: one bit, color 1 on 0, a pen of 1, orientation or angle 0."""
    k, w, h, order, ang, r = case
    if k % 2:
        a = ['o.bmp', w, h, max(1, min(order, 3))]
        d = both(b.savehilbertcurve2file, a, [1, 1, 0, 1, 0], 'savehilbertcurve2file', saved)
        both(b.savehilbertcurve2file, a + [8], [1, 0, 1, 0], 'savehilbertcurve2file', saved)
    else:
        a = ['o.bmp', r, min(order, 3)]
        d = both(b.savekochsnowflake2file, a, [0, 1, 1, 0, 1], 'savekochsnowflake2file', saved)
        both(b.savekochsnowflake2file, a + [ang, 8], [1, 0, 1], 'savekochsnowflake2file', saved)
    img = M.parse(d)
    same(img.bits, 1, 'depth')
    return len({v for q in img.px for v in q}) > 1


# ---- drawing

def lumrange(d):
    return [d % 200, 40 + d % 211]


DRAW = {
    'circle': lambda a: ([a[0], a[1], a[2] % 12 + 1, a[3]], [None]),
    'circlevec': lambda a: ([[a[0], a[1]], a[2] % 12 + 1, a[3]], [None]),
    'ellipse': lambda a: ([a[0], a[1], a[2] % 9 + 1, a[4] % 9 + 1, a[3]], [None]),
    'drawvec': lambda a: ([[a[0], a[1]], [a[2], a[4]], a[5] % 4 + 2, a[3]], [None]),
    'plotlines': lambda a: ([[[a[0], a[1]], [a[2], a[4]], [a[5], a[1]]], a[3]], [1]),
    'filledgradrect': lambda a: ([min(a[0], a[2]), min(a[1], a[4]), max(a[0], a[2]) + 1, max(a[1], a[4]) + 1, lumrange(a[5]), a[6], a[5] % 2], [ml.lerp]),
    'filleddichromaticgradrect': lambda a: ([min(a[0], a[2]), min(a[1], a[4]), max(a[0], a[2]) + 1, max(a[1], a[4]) + 1, a[3], a[7], a[5] % 2], [ml.lerp]),
    'gradcircle': lambda a: ([a[0], a[1], a[2] % 12 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'graddichromiccircle': lambda a: ([a[0], a[1], a[2] % 12 + 2, a[3], a[7]], [ml.lerp]),
    'gradellipse': lambda a: ([a[0], a[1], a[2] % 9 + 2, a[4] % 9 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'gradplotlines': lambda a: ([[[a[0], a[1]], [a[2], a[4]]], a[5] % 5 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'gradvert': lambda a: ([[[a[0], a[1]], [a[2], a[4]]], a[5] % 7 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'gradthickplotpoly': lambda a: ([[[a[0], a[1]], [a[2], a[4]], [a[5], a[0]]], a[5] % 5 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'gradthickellipserot': lambda a: ([20, 20, a[2] % 5 + 3, a[4] % 5 + 3, a[5] * 3, a[0] % 4 + 2, lumrange(a[5]), a[6]], [ml.lerp]),
    'sphere': lambda a: ([a[0], a[1], a[2] % 12 + 2, a[6]], [ml.lerp]),
    'palshift': lambda a: ([], [1]),
    'setBMP2invshiftedmonochrome': lambda a: ([a[6]], [20, 0]),
}
p36 = st.integers(3, 36)


@P.part([st.tuples(st.just(n), st.sampled_from(M.BITS), st.tuples(p36, p36, p36, st.integers(1, 0xffffff), p36, p36, fac, st.integers(1, 0xffffff)).map(list)).map(list) for n in sorted(DRAW)], quick=400, rule='the bitmap changes')
def drawing(case):
    """Drawn without their option: outlines, the pen of one pixel, linear ramps, shifts by one, multiples of 20."""
    n, bits, a = case
    if 'pal' in n or 'mono' in n:
        bits = min(bits, 8)
    elif not n.startswith(('circle', 'ellipse', 'draw', 'plot')):
        bits = 24
    a[3] = M.mask(a[3], bits)
    args, dflt = DRAW[n](a)
    start = bytes(b.newBMP(40, 40, bits))

    def run(fn, a):
        bmp = array('B', start)
        quiet(fn, bmp, *a)
        return bytes(bmp)
    return both(getattr(b, n), args, dflt, n, run) != start


@P.part(st.tuples(st.sampled_from(M.BITS), st.lists(rgb, min_size=2, max_size=2), fac, st.integers(0, 30), st.integers(0, 4)).map(list), quick=150, rule='always')
def palettes(case):
    """Computed palettes without multiple and shift, files shifted by one entry, pictures reduced without factors, spheres and ramps of files."""
    bits, (c1, c2), f, k, op = case
    run = lambda fn, a: [list(v) if isinstance(v, (list, tuple)) else v for v in fn(*a)]
    if bits < 24:
        both(C.dichromaticpal, [c1, c2, 1 << bits], [1, 0], 'dichromaticpal', run)
        for n in ('monoinverseshiftableBGRApal', 'monoinverseshiftableBGRpal', 'monoinverseshiftablepal', 'monoshiftablepal'):
            both(getattr(C, n), [bits, f], [1, 0], n, run)
    px = [[(c1 * (x + 1) + c2 * y) & ((1 << bits) - 1) for x in range(9)] for y in range(7)]
    img = M.Img(9, 7, bits, px, [[(i * 37 + c1 + z * 11) & 255 for z in range(3)] for i in range(1 << bits)] if bits < 24 else None)
    open('i.bmp', 'wb').write(M.encode(img))
    if bits < 24:
        both(b.palshift2file, ['i.bmp', 'o.bmp'], [1], 'palshift2file', saved)
        if op == 0:
            for v in os.listdir('.'):
                if v.startswith('cycle'):
                    shutil.rmtree(v)
            os.mkdir('cycle')
            for over in ([], [False]):
                try:
                    quiet(b.colorcycle2dir, 'i.bmp', 'cycle', *over)
                except FileExistsError:
                    pass
                need(os.listdir('cycle') == [], 'colorcycle2dir(i.bmp, an existing directory%s) saves into it', ', False' if over else '')
    else:
        both(b.reduce24bitimagebits, ['i.bmp', 'o.bmp', 4 if k % 2 else 8, k * 3, False], [None], 'reduce24bitimagebits', saved)
        both(b.filledgradrect2file, ['i.bmp', 'o.bmp', 1, 1, 6, 5, [k, 200], f, k % 2], [ml.lerp], 'filledgradrect2file', saved)
        both(b.filleddichromaticgradrect2file, ['i.bmp', 'o.bmp', 1, 1, 6, 5, c1, c2, k % 2], [ml.lerp], 'filleddichromaticgradrect2file', saved)
        both(b.sphere2file, ['i.bmp', 'o.bmp', 4, 3, 3, f], [ml.lerp], 'sphere2file', saved)
    return True
