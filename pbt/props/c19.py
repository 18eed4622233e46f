"""C19 file-to-file operations are the in-memory operation between a load and a save."""
import os
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, Violation, need, same, quiet, short
from . import c11
import random
import pythonbmp.BITMAPlib as b
from pythonbmp.mathlib import lerp, smoothsteplerp

P = Prop('C19', ['the in-memory operations themselves are decided by the other properties; here they are the reference for their file versions'])

IN, OUT = 'in.bmp', 'out.bmp'
SENT = b'left alone'
NAMES = ['in.bmp', 'out.bmp', 'a', 'IN.BMP', 'with space.bmp', 'd/in.bmp', 'd/e f/out.bmp', './x.bmp', '../up.bmp', 'x.y.z.bmp', 'no_ext', '\u00fc\u4e16.bmp', 'n' * 60 + '.bmp', 'd/' + 'm' * 200,
         '24bit', '#1.bmp', '-.bmp', '~x.bmp', '%s{}.bmp', "it's.bmp"]
HERE = 'here'


def u(lo, hi):
    return st.integers(lo * 20, hi * 20).map(lambda k: k / 20)


rgbf = st.lists(u(0, 1), min_size=3, max_size=3)
lum = st.lists(st.integers(0, 255), min_size=2, max_size=2)
pct = st.integers(-100, 150)
gam = st.sampled_from([.5, .9, 1.5, 2.2])
n19 = st.integers(1, 5)
col = st.integers(0, 1)         # scaled to the depth below
step = st.sampled_from(['lerp', 'smoothsteplerp'])
FN = {'lerp': lerp, 'smoothsteplerp': smoothsteplerp}

# name: (in-memory function, kind, 24-bit files only, extra arguments)
#   kind: w whole image in place, r rectangle in place, c circle in place, W/R whole or rectangle returning a new bitmap
T = {}
for _n in 'flipvertical fliphorizontal mirrortop mirrorbottom mirrorleft mirrorright mirrortopleft mirrortopright mirrorbottomleft mirrorbottomright outline'.split():
    T[_n + '2file'] = (_n, 'w', False, [])
for _n in ('flipverticalregion fliphorizontalregion mirrorleftinregion mirrorrightinregion mirrortopinregion mirrorbottominregion mirrortopleftinregion mirrortoprightinregion '
           'mirrorbottomleftinregion mirrorbottomrightinregion invertregion outlineregion').split():
    T[_n + '2file'] = (_n, 'r', False, [])
for _n in ('invertbitsincircregion flipvertcircregion mirrortopincircregion mirrorbottomincircregion mirrorleftincircregion mirrorrightincircregion mirrortopleftincircregion '
           'mirrorbottomleftincircregion mirrortoprightincircregion mirrorbottomrightincircregion fliphoricircregion outlinecircregion flipXYcircregion').split():
    T[_n + '2file'] = (_n, 'c', False, [])
T.update({
    'invertbits2file': ('invertimagebits', 'w', False, []),
    'flipXY2file': ('flipXY', 'W', False, []),
    'palshift2file': ('palshift', 'w', False, [st.integers(-3, 5)]),
    'eraseeverynthhoriline2file': ('eraseeverynthhorizontalline', 'w', False, [n19]),
    'pixelizenxntofile': ('pixelizenxn', 'W', True, [n19]),
    'resizeNtimessmaller2file': ('resizeNtimessmaller', 'W', True, [n19]),
    'resizeNtimesbigger2file': ('resizeNtimesbigger', 'W', True, [n19]),
    'upgradeto24bitimage2file': ('upgradeto24bitimage', 'W', False, []),
    'cropBMPandsave': ('crop', 'R', False, []),
    'adjustbrightnessinregion2file': ('brightnesseadjto24bitregion', 'r', True, [pct]),
    'adjustthresholdinregion2file': ('thresholdadjto24bitregion', 'r', True, [lum]),
    'colorfilterinregion2file': ('colorfilterto24bitregion', 'r', True, [rgbf]),
    'monofilterinregion2file': ('monofilterto24bitregion', 'r', True, []),
    'gammaadjtoregion2file': ('gammaadjto24bitregion', 'r', True, [gam]),
    'horizontalbrightnessgradregion2file': ('horizontalbrightnessgradto24bitregion', 'r', True, [lum]),
    'verticalbrightnessgradregion2file': ('verticalbrightnessgradto24bitregion', 'r', True, [lum]),
    'horizontalbrightnessgrad2file': ('horizontalbrightnessgradto24bitimage', 'w', True, [lum]),
    'verticalbrightnessgrad2file': ('verticalbrightnessgradto24bitimage', 'w', True, [lum]),
    'eraseeverynthhorilineinregion2file': ('eraseeverynthhorilineinregion', 'r', False, [n19]),
    'rectangle2file': ('rectangle', 'r', False, [col]),
    'filledrect2file': ('filledrect', 'r', False, [col]),
    'filledgradrect2file': ('filledgradrect', 'r', False, [lum, rgbf, st.integers(0, 1), step]),
    'filleddichromaticgradrect2file': ('filleddichromaticgradrect', 'r', False, [st.integers(0, 0xffffff), st.integers(0, 0xffffff), st.integers(0, 1), step]),
    'monochromecircregion2file': ('monocircle', 'c', True, []),
    'colorfiltercircregion2file': ('colorfiltercircregion', 'c', True, [rgbf]),
    'thresholdadjcircregion2file': ('thresholdadjcircregion', 'c', True, [lum]),
    'gammacorrectcircregion2file': ('gammacorrectcircregion', 'c', True, [gam]),
    'brightnessadjcircregion2file': ('brightnessadjcircregion', 'c', True, [pct]),
    'vertbrightnessgrad2circregion2file': ('vertbrightnessgrad2circregion', 'c', True, [lum]),
    'horibrightnessgrad2circregion2file': ('horibrightnessgrad2circregion', 'c', True, [lum]),
    'thickencirclearea2file': ('thickencirclearea', 'c', True, [rgbf]),
    'sphere2file': ('sphere', 'c', True, [st.one_of(rgbf, st.lists(st.integers(0, 0xffffff), min_size=2, max_size=2)), step]),
    'filledcircle2file': ('filledcircle', 'c', False, [col]),
    'circle2file': ('circle', 'c', False, [col]),
    'eraseeverynthhorilineinccircregion2file': ('eraseeverynthhorizontallineinccircregion', 'c', False, [n19]),
    'magnifyNtimescircregion2file': ('magnifyNtimescircregion', 'c', False, [n19]),
    'pixelizenxncircregion2file': ('pixelizenxncircregion', 'c', False, [n19]),
    'copycircregion2file': ('copycircregion', 'c', False, ['pt']),
})


@st.composite
def ops(draw, n):
    _, kind, only24, extra = T[n]
    bits = (24, 24, 24, 24, 24, 24, 24, 8, 4, 1) if only24 or n.startswith(('magn', 'pixel', 'filledd')) else (24, 24, 8, 4, 1)
    img = draw(M.images(bits=bits, maxw=18, maxh=14, big=False))
    if draw(st.integers(0, 11)) == 11:
        img['w'], img['h'] = draw(st.sampled_from([(70, 30), (40, 80), (130, 12), (12, 140), (260, 5), (5, 260), (66, 66)]))
    w, h = img['w'], img['h']
    if n in ('pixelizenxntofile', 'resizeNtimessmaller2file'):
        img['w'] = w = max(w, 5)
        img['h'] = h = max(h, 5)
    a = []
    pad = draw(st.sampled_from([0] * 7 + [4]))
    if kind in 'rR':
        a = [draw(M.coord(w, pad)), draw(M.coord(h, pad)), draw(M.coord(w, pad)), draw(M.coord(h, pad))]
    elif kind == 'c':
        if draw(st.integers(0, 4)):
            img['w'], img['h'] = w, h = max(w, 7), max(h, 7)
            r = draw(st.integers(0, (min(w, h) - 1) // 2))
            a = [draw(st.integers(r, w - 1 - r)), draw(st.integers(r, h - 1 - r)), r]
        else:
            a = [draw(M.coord(w, 5)), draw(M.coord(h, 5)), draw(st.integers(0, 9))]
    for e in extra:
        if e == 'pt':
            r = a[2]
            a.append([draw(st.integers(r, max(r, w - 1 - r))), draw(st.integers(r, max(r, h - 1 - r)))])
        elif e is col:
            a.append(draw(M.color(img['bits'])))
        else:
            a.append(draw(e))
    case = {'n': n, 'img': img, 'a': a, 'miss': draw(st.integers(0, 19)) == 0, 'there': draw(st.booleans())}
    k = draw(st.integers(0, 5))
    if k == 5:
        case['names'] = [draw(st.sampled_from(NAMES)), draw(st.sampled_from(NAMES))]
    return case


def run_file(name, img, fn, what, miss=False, there=False, names=(IN, OUT)):
    """Run a file operation fn(in, out) -> (the saved image or None, printed text); the input is left as it was."""
    os.makedirs(HERE, exist_ok=True)
    back = os.getcwd()
    os.chdir(HERE)
    try:
        return _run_file(fn, img, what, miss, there, *names)
    finally:
        os.chdir(back)


def _run_file(fn, img, what, miss, there, IN, OUT):
    os.makedirs('d/e f', exist_ok=True)
    for f in (IN, OUT):
        if os.path.exists(f):
            os.remove(f)
    data = M.encode(img)
    if not miss:
        with open(IN, 'wb') as f:
            f.write(data)
    if IN == OUT:       # the result replaces the input
        there = False
    if there:
        with open(OUT, 'wb') as f:
            f.write(SENT)
    before = listing()
    _, out = quiet(fn, IN, OUT)
    extra = listing() - before - {os.path.abspath(OUT)}
    need(not extra, '%s: also wrote %s', what, sorted(extra))
    if IN == OUT:
        got = open(OUT, 'rb').read() if os.path.exists(OUT) else data
        need(miss or os.path.exists(OUT), '%s: the input file vanished', what)
        return (M.parse(got) if got != data else None), out
    if not miss:
        need(open(IN, 'rb').read() == data, '%s: the input file was changed', what)
    else:
        need(not os.path.exists(IN), '%s: the input file was created', what)
    if not os.path.exists(OUT):
        return None, out
    got = open(OUT, 'rb').read()
    if there and got == SENT:
        return None, out
    return M.parse(got), out


def listing():
    return {os.path.abspath(os.path.join(d, f)) for d, _, fs in os.walk('..') for f in fs}


@P.part([ops(n) for n in sorted(T)], quick=5400, rule='the operation changes the image')
def operations(case):
    n, a = case['n'], [FN.get(v, v) if isinstance(v, str) else v for v in case['a']]
    fname, kind, only24, _ = T[n]
    img = M.from_case(case['img'])
    names = case.get('names', (IN, OUT))
    what = f'{n}({case["a"]}) on {img.w}x{img.h} {img.bits}-bit' + (f' from {names[0]!r} to {names[1]!r}' if 'names' in case else '')
    got, out = run_file(n, img, lambda i, o: getattr(b, n)(i, o, *a), what, case['miss'], case['there'], names)
    if case['miss']:
        need(got is None, '%s: saved something for a missing input', what)
        need('not exist' in out, '%s: no word of the missing input file', what)
        return False
    if only24 and img.bits != 24:
        need(got is None and '24' in out, '%s: a %s-bit file was not refused', what, img.bits)
        return False
    bmp = M.to_bmp(img)
    res, _ = quiet(getattr(b, fname), bmp, *a)
    if kind in 'WR':
        if not hasattr(res, '__len__'):
            need(got is None, '%s: saved something though the operation gives no bitmap', what)
            return False
        bmp = res
    if got is None and names[0] == names[1]:
        got = img
    need(got is not None, '%s: nothing was saved', what)
    M.expect(M.to_bmp(got), M.parse(bmp), what)
    return kind in 'WR' or M.parse(bmp).px != img.px


PAL = {'adjustbrightness2file': 'bright', 'thresholdadjust2file': 'thresh', 'colorfilter2file': 'filter', 'gammaadj2file': 'gamma', 'monochrome2file': 'mono'}


@st.composite
def adjusts(draw, n):
    return {'n': n, 'img': draw(M.rare(M.images(maxw=12, maxh=8, big=False), M.images(maxw=60, maxh=20, big=False), 6)), 'p': draw(c11.param(PAL[n])), 'miss': draw(st.integers(0, 19)) == 0}


@P.part([adjusts(n) for n in sorted(PAL)], quick=1200, rule='pixels or palette change')
def adjustments(case):
    """Colour adjustments of files treat every pixel of a 24-bit file, and the palette (not the pixels) of others."""
    n, p = case['n'], case['p']
    img = M.from_case(case['img'])
    op = PAL[n]
    what = f'{n} {p} on {img.w}x{img.h} {img.bits}-bit'
    got, out = run_file(n, img, lambda i, o: getattr(b, n)(i, o, *c11.args(p)), what, case['miss'])
    if case['miss']:
        need(got is None and 'not exist' in out, '%s: missing input not reported', what)
        return False
    need(got is not None, '%s: nothing was saved', what)
    same((got.w, got.h, got.bits), (img.w, img.h, img.bits), what + ': geometry')
    if img.bits == 24:
        area = {(x, y) for x in range(img.w) for y in range(img.h)}
        spare = {(img.w - 1, y) for y in range(img.h)} if op == 'filter' else ()
        return c11.check(M.to_bmp(got), img, area, op, p, what, spare)
    same(got.px, img.px, what + ': pixels')
    for i, (v, c) in enumerate(zip(got.pal, img.pal)):
        want, tol = c11.OPS[op][0](tuple(c), p)
        need(all(abs(x - y) <= tol + .5 for x, y in zip(v, want)), '%s: palette entry %s went from %s to %s, expected about %s', what, i, c, v, want)
    return got.pal != img.pal


@st.composite
def cycles(draw):
    return {'img': draw(M.images(bits=(4, 4, 4, 1, 24, 8), maxw=8, maxh=4, big=False)), 'abs': draw(st.booleans()), 'exists': draw(st.booleans()), 'ok': draw(st.booleans()), 'miss': draw(st.integers(0, 9)) == 0}


@P.part(cycles(), quick=120, rule='the frames are saved')
def color_cycles(case):
    """A directory of frames, one per palette rotation; an existing directory is only used when allowed."""
    img = M.from_case(case['img'])
    with open(IN, 'wb') as f:
        f.write(M.encode(img))
    d = 'frames'
    if os.path.isdir(d):
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    if case['exists']:
        os.mkdir(d)
    path = os.path.abspath(d) if case['abs'] else d
    src = 'missing.bmp' if case['miss'] else IN
    what = f'color cycle of {img.w}x{img.h} {img.bits}-bit to a{"n existing" if case["exists"] else " new"} directory'
    try:
        _, out = quiet(b.colorcycle2dir, src, path, case['ok'])
        failed = False
    except FileExistsError:
        failed = True
    if case['miss']:
        need(not failed and os.path.isdir(d) == case['exists'], '%s: acted on a missing file', what)
        return False
    if img.bits not in (4, 8):
        need(not failed and os.path.isdir(d) == case['exists'] and '4' in out, '%s: not refused', what)
        return False
    if case['exists'] and not case['ok']:
        need(failed, '%s: not refused', what)
        same(os.listdir(d), [], what + ': files')
        return False
    need(not failed, '%s: refused', what)
    n = 1 << img.bits
    same(sorted(os.listdir(d)), sorted(f'{k}.bmp' for k in range(n)), what + ': files')
    seen = []
    for k in range(n):
        g = M.parse(open(os.path.join(d, f'{k}.bmp'), 'rb').read())
        same((g.w, g.h, g.bits, g.px), (img.w, img.h, img.bits, img.px), f'{what}: frame {k}')
        seen.append([tuple(c) for c in g.pal])
    pal = [tuple(c) for c in img.pal]
    rots = [[pal[k:] + pal[:k] for k in range(n)], [pal[-k:] + pal[:-k] if k else pal for k in range(n)]]
    need(seen in rots, '%s: the palettes are not the successive rotations', what)
    return True
