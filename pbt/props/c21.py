"""C21 colours: packing, palettes, matching, named colours, channel buffers."""
import colorsys, json, os, random
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, close, VERIF
import pythonbmp.BITMAPlib as b
from pythonbmp import colors as C
from pythonbmp import colordict, X11colordict, XKCDcolordict

P = Prop('C21', ['channel values computed from fractions may be rounded or truncated (within 1)',
                 'ties between nearest entries are left open',
                 'the X11 and CSS names are compared with the X.Org rgb.txt values, the XKCD and basic names with the tables of the pinned commit'])
with open(os.path.join(VERIF, 'pbt/data/colors.json')) as _f:
    NAMES = json.load(_f)
KF5 = ('x11', 'aquamarine')

byte = st.integers(0, 255) | st.sampled_from([0, 1, 63, 64, 127, 128, 191, 192, 254, 255])
rgb = st.lists(byte, min_size=3, max_size=3)
frac = st.integers(0, 40).map(lambda v: v / 40)
fracs = st.lists(frac, min_size=3, max_size=3)


@P.part(rgb, quick=1500, rule='not all channels are equal')
def packing(c):
    """Every form of a colour holds the same three channels, and packing undoes unpacking."""
    r, g, bl = c
    v = r * 65536 + g * 256 + bl
    same(C.RGB2int(r, g, bl), v, f'RGB2int{tuple(c)}')
    same(tuple(C.int2RGB(v)), (r, g, bl), f'int2RGB({v:#x})')
    same(list(C.int2RGBlist(v)), c, f'int2RGBlist({v:#x})')
    same(C.int2RGBarr(v), array('B', c), f'int2RGBarr({v:#x})')
    same(C.int2BGRarr(v), array('B', c[::-1]), f'int2BGRarr({v:#x})')
    same(C.RGB2BGRarr(r, g, bl), array('B', c[::-1]), f'RGB2BGRarr{tuple(c)}')
    same([list(p) for p in C.RGB2BGRAlist([c, c[::-1]])], [c[::-1] + [0], c + [0]], 'RGB2BGRAlist')
    return len(set(c)) > 1


@P.part(st.tuples(rgb, fracs, byte, byte).map(list), quick=1500, rule='the colour is not gray and the fractions differ')
def luminosity(case):
    """Splitting a colour into fractions and luminosity and mixing them again gives the colour back."""
    c, f, lum, l2 = case
    fs, m = C.RGBtoRGBfactorsandlum(c)
    same(m, max(max(c), 1), f'luminosity of {c}')
    close(fs, [v / max(max(c), 1) for v in c], f'fractions of {c}')
    same(list(C.RGBfactors2RGB(fs, m)), c, f'{c} from its fractions')
    close(C.RGBfactors2RGB(f, lum), [v * lum for v in f], f'RGBfactors2RGB({f},{lum})', 0, 1.001)
    mix = C.int2RGB(C.colormix(lum, f))
    close(list(mix), [v * lum for v in f], f'colormix({lum},{f})', 0, 1.001)
    base, rng = C.RGBfactorstoBaseandRange([lum, l2], f)
    close(list(base), [v * lum for v in f], f'base of {lum}..{l2} at {f}', 0, 1.001)
    close([x + y for x, y in zip(base, rng)], [v * l2 for v in f], f'base plus range of {lum}..{l2} at {f}', 0, 1.001)
    same(len(set(C.monochrome(c))), 1, 'channels of monochrome')
    close(C.monochrome(c)[0], sum(c) / 3, f'monochrome({c})', 0, 1.001)
    return len(set(c)) > 1 and len(set(f)) > 1


def nearrgb(c):
    return st.lists(st.integers(-3, 3), min_size=3, max_size=3).map(lambda d: [min(255, max(0, u + v)) for u, v in zip(c, d)])


crowded = st.tuples(st.one_of(rgb, rgb, st.lists(st.integers(0, 70), min_size=3, max_size=3)), st.booleans()).flatmap(lambda t: st.tuples(st.just(t[0]), st.lists(
    nearrgb(t[0]) if t[1] else st.one_of(nearrgb(t[0]), rgb, st.just([0, 0, 0])), min_size=2, max_size=20), st.just(3)))


@P.part(st.one_of(st.tuples(rgb, st.lists(rgb, min_size=1, max_size=20), st.integers(0, 3)), crowded).map(list), quick=2000, rule='the colour is not in the palette')
def matching(case):
    """A colour in the palette matches itself, any other the nearest entry."""
    c, pal, k = case
    if k == 0:
        pal = M.defaultpal(4)
    elif k == 1:
        c = list(pal[len(pal) // 2])
    pal = [list(p) for p in pal]
    got = C.matchRGBtopal(list(c), pal)
    arr = C.matchRGBtopal(array('B', c), pal)
    if c in pal:
        same(pal[got], c, f'entry matched to {c}')
        same(pal[arr], c, f'entry matched to the buffer {c}')
        return False
    same(sum((x - y) ** 2 for x, y in zip(c, pal[arr])), sum((x - y) ** 2 for x, y in zip(c, pal[got])), f'squared distance of the match of the buffer {c} in {pal}')
    need(isinstance(got, int) and 0 <= got < len(pal), 'match of %s is %s of %s entries', c, got, len(pal))
    d = [sum((x - y) ** 2 for x, y in zip(c, p)) for p in pal]
    best = min(d)
    need(d[got] <= best, '%s matched %s at %s, an entry at %s is nearer: %s', c, pal[got], d[got] ** .5, best ** .5, pal)
    return True


@P.part(rgb, quick=1500, rule='a channel is 64 or more')
def matching_4bit(c):
    """The 16-colour match has the bright bit when a channel is 128 or more and each channel's bit when it is 64 or more."""
    want = 8 * (max(c) >= 128) + 4 * (c[0] >= 64) + 2 * (c[1] >= 64) + (c[2] >= 64)
    same(C.matchRGBtodefault4bitpal(list(c)), want, f'16-colour match of {c}')
    return max(c) >= 64


@P.part(st.tuples(rgb, st.integers(0, 999)).map(list), quick=600, rule='not black')
def random_matching(case):
    """Random plotting to 1 or 4 bits only gives possible values, with a chance that grows with the channel."""
    c, seed = case
    random.seed(seed)
    n = 400
    one = [C.probplotRGBto1bit(list(c), 1) for _ in range(n)]
    need(set(one) <= {0, 1}, 'probplotRGBto1bit(%s, 1) gave %s', c, set(one))
    four = [C.probplotRGBto4bitpal(list(c)) for _ in range(n)]
    bright = 8 * (max(c) >= 128)
    for v in four:
        need(0 <= v < 16 and v & 8 == bright, 'probplotRGBto4bitpal(%s) gave %s', c, v)

    def chance(ones, p, what):
        # 400 draws: 8 standard deviations never fail in a lifetime of runs; the seed is part of the case anyway
        need(abs(ones - n * p) <= 8 * (n * .25) ** .5 and (p > 0 or ones == 0), '%s for %s came up %s times of %s, expected about %.0f', what, c, ones, n, n * p)
    s = sum(c)
    chance(sum(one), max(0, s - 384 + .5) / (s + 1) if s > 384 else 0, 'white')
    for k, bit in ((0, 4), (1, 2), (2, 1)):
        chance(sum(v & bit > 0 for v in four), max(0, c[k] - 128) / (c[k] + 1), f'bit {bit}')
    return s > 0


@P.part(rgb, quick=1500, rule='not gray')
def hsl(c):
    """Hue in degrees, saturation and lightness in percent."""
    h, l, s = colorsys.rgb_to_hls(*[v / 255 for v in c])
    got = C.RGB2HSL(*c)
    what = f'RGB2HSL{tuple(c)}'
    need(all(isinstance(v, int) for v in got), '%s is not whole: %s', what, got)
    dh = abs(got[0] - h * 360) % 360
    need(min(dh, 360 - dh) <= .5001 and 0 <= got[0] <= 360, '%s: hue %s, expected %.2f', what, got[0], h * 360)
    close(got[1], s * 100, what + ' saturation', 0, .5001)
    close(got[2], l * 100, what + ' lightness', 0, .5001)
    return len(set(c)) > 1


@P.part(st.tuples(st.sampled_from([1, 4, 8]), fracs, M.rare(st.integers(1, 40), st.integers(-40, 300), 4), st.integers(-300, 300)).map(list), quick=500, rule='the fractions differ')
def mono_palettes(case):
    """A monochrome palette has an entry per colour index, rising (or falling) in even steps of one colour."""
    bits, f, mult, shift = case
    n = 1 << bits
    ramp = [255 * i // (n - 1) for i in range(n)]
    what = f'palette {bits}-bit {f} mult {mult} shift {shift}'

    def chk(got, lum, order, what):
        same(len(got), n, f'{what}: entries')
        for i, (p, v) in enumerate(zip(got, lum)):
            w = [x * v for x in f]
            close(list(p)[:3], [w[k] for k in order], f'{what} entry {i}', 0, 1.001)
        return got
    chk(C.monochromepal(bits, f), ramp, (0, 1, 2), 'plain ' + what)
    chk(C.monoshiftablepal(bits, f, mult, shift), [(v * mult + shift) % 256 for v in ramp], (0, 1, 2), 'shifted ' + what)
    inv = [((255 - v) * mult + shift) % 256 for v in ramp]
    chk(C.monoinverseshiftablepal(bits, f, mult, shift), inv, (0, 1, 2), 'inverse ' + what)
    chk(C.monoinverseshiftableBGRpal(bits, f, mult, shift), inv, (2, 1, 0), 'inverse BGR ' + what)
    for p in chk(C.monoinverseshiftableBGRApal(bits, f, mult, shift), inv, (2, 1, 0), 'inverse BGRA ' + what):
        same((len(p), p[3]), (4, 0), 'fourth value of ' + what)
    for got, lum in ((C.monoshiftablepal(bits, f), ramp), (C.monoinverseshiftablepal(bits, f), ramp[::-1])):
        chk(got, lum, (0, 1, 2), 'default ' + what)
    return len(set(f)) > 1


@P.part(st.tuples(rgb, rgb, M.rare(st.integers(1, 64), st.integers(65, 1024), 10), M.rare(st.integers(1, 9), st.integers(10, 300), 6), M.rare(st.integers(0, 99), st.integers(-300, 2000), 6)).map(list), quick=600, rule='two entries or more, the colours differ')
def two_colour_palettes(case):
    """A two-colour palette steps from one colour towards the other; every step it keeps is at its own index."""
    c1, c2, n, mult, shift = case
    got = C.dichromaticpal(C.RGB2int(*c1), C.RGB2int(*c2), n, mult, shift)
    same(len(got), n, 'entries')
    want = [c1] * n
    for i in range(n):
        want[((n - i) * mult + shift) % n] = [x + (y - x) * i / n for x, y in zip(c1, c2)]
    for i in range(n):
        close(list(got[i]), want[i], f'entry {i} of two-colour palette {c1}-{c2} n {n} mult {mult} shift {shift}', 0, .5001)
    f = C.interpolateRGB(lambda x, y, t: x + (y - x) * t, c1[0], c2[0], c1[1], c2[1], c1[2], c2[2], shift / 99)
    close(list(f), [x + (y - x) * shift / 99 for x, y in zip(c1, c2)], 'interpolateRGB', 0, .5001)
    return n > 1 and c1 != c2


def _tables():
    return {'x11': (b.getX11colorname2RGBdict, b.getX11colorname2HSLdict, b.getX11RGBfactors),
            'xkcd': (b.getXKCDcolorname2RGBdict, b.getXKCDcolorname2HSLdict, b.getXKCDRGBfactors),
            'basic': (b.getcolorname2RGBdict, b.getcolorname2HSLdict, b.getRGBfactors)}


def named(table, k, want):
    rgbf, hslf, facf = [f() for f in _tables()[table]]
    what = f'{table} colour {k}'
    for nm, d in (('RGB', rgbf), ('HSL', hslf), ('fraction', facf)):
        need(k in d, '%s is missing from the %s table', what, nm)
    same(list(C.int2RGB(rgbf[k])), want, what)
    close(list(facf[k]), [v / 255 for v in want], what + ' fractions', 0, 1e-6)
    h, l, s = colorsys.rgb_to_hls(*[v / 255 for v in want])
    g = hslf[k]
    dh = abs(g[0] - h * 360) % 360
    need(min(dh, 360 - dh) <= .5001, '%s: hue %s, expected %.2f', what, g[0], h * 360)
    close(list(g)[1:], [s * 100, l * 100], what + ' saturation and lightness', 0, .5001)


@P.part(st.integers(0, 60).flatmap(lambda k: st.just([k])), quick=100, rule='always')
def named_colours(case):
    """Every named colour has its own value in all three forms (a chunk of the names per case)."""
    allk = [(t, k) for t in sorted(NAMES) for k in sorted(NAMES[t])]
    for t, k in allk[case[0] * 27:case[0] * 27 + 27]:
        named(t, k, [0, 255, 255] if (t, k) == KF5 and b.getX11colorname2RGBdict()[k] == 65535 else NAMES[t][k])
    for t, fs in _tables().items():
        for f in fs:
            same(len(f()), len(NAMES[t]), f'names in {f.__name__}')
    return True


@P.part(st.just(['x11', 'aquamarine']), quick=0, rule='known finding only')
def kf_named(case):
    named(case[0], case[1], NAMES[case[0]][case[1]])


@P.part(st.tuples(st.binary(min_size=1, max_size=20).map(lambda v: v.hex()), st.integers(1, 12), fracs, st.integers(1, 30), st.integers(-100, 120), byte, byte).map(list),
        quick=1500, rule='two pixels or more')
def buffers(case):
    """Channel-wise operations on a buffer of pixels treat every pixel alone."""
    d, n, f, gam, pc, l1, l2 = case
    d = bytes.fromhex(d)
    px = [[M.content(d, 3 * i), M.content(d, 3 * i + 1), M.content(d, 3 * i + 2)] for i in range(n)]      # b, g, r
    flat = [v for p in px for v in p]
    mk = lambda: array('B', flat)

    def chk(got, want, what, tol=1.001):
        need(isinstance(got, array) and got.typecode == 'B', '%s does not give a byte array', what)
        close(list(got), [v for p in want for v in p], f'{what} of {px}', 0, tol)
    for f1 in (C.monochromefiltertoBGRbuf, lambda q: (C.applymonochromefiltertoBGRbuf(q), q)[1]):
        chk(f1(mk()), [[sum(p) / 3] * 3 for p in px], 'monochrome filter')
    k = [v * 2 for v in f]
    for f1 in (lambda q: C.colorfiltertoBGRbuf(q, k), lambda q: (C.applycolorfiltertoBGRbuf(q, k), q)[1]):
        got = f1(mk())
        # known finding KF4: the last pixel of the buffer is left as it was
        w = [[min(255, v * z) for v, z in zip(p, k[::-1])] for p in px]
        if list(got[-3:]) == px[-1]:
            w[-1] = px[-1]
        chk(got, w, f'colour filter {k}')
    g = gam / 10
    ga = []
    for p in px:
        m = max(max(p), 1)
        ga.append([v * (int((m / 255) ** g * 255)) / m for v in p])
    for f1 in (lambda q: C.gammaBGRbuf(q, g), lambda q: (C.applygammaBGRbuf(q, g), q)[1]):
        chk(f1(mk()), ga, f'gamma {g}', 2.001)
    chk(C.invertbitsinbuffer(mk()), [[255 - v for v in p] for p in px], 'inversion', 0)
    chk(C.applybrightnessadjtoBGRbuf(mk(), pc), [[max(0, min(255, v * (1 + pc / 100))) for v in p] for p in px], f'brightness {pc}')
    lo, hi = min(l1, l2), max(l1, l2)
    th = [[v * (max(lo, min(hi, max(p))) / max(max(p), 1)) for v in p] for p in px]
    chk(C.applythresholdadjtoBGRbuf(mk(), [l1, l2]), th, f'threshold {l1}..{l2}')
    q = mk()
    C.RGB2BGRbuf(q)
    chk(q, [p[::-1] for p in px], 'RGB2BGRbuf', 0)
    chk(C.makeBGRbuf(*[array('B', flat[i::3]) for i in range(3)]), px, 'makeBGRbuf', 0)
    return n > 1


@P.part(st.tuples(rgb, fracs, M.rare(st.integers(1, 40), st.integers(41, 200), 12), st.integers(-150, 300), st.integers(-50, 300), st.integers(-50, 300)).map(list), quick=1500, rule='not black')
def adjustments(case):
    """Gamma, brightness, threshold and colour filter of a single colour."""
    c, f, gam, pc, l1, l2 = case
    m = max(max(c), 1)
    g = gam / 10
    sat = lambda w: [max(0, min(255, v)) for v in w]
    close(C.gammacorrectbyte(m, g), (m / 255) ** g * 255, f'gammacorrectbyte({m},{g})', 0, 1.001)
    need(0 <= C.gammacorrectbyte(m, g) <= 255, f'gammacorrectbyte({m},{g}) = {C.gammacorrectbyte(m, g)} is not a byte')
    close(list(C.gammacorrect(list(c), g)), [v / m * (m / 255) ** g * 255 for v in c], f'gammacorrect({c},{g})', 0, 2.001)
    close(list(C.brightnessadjust(list(c), pc)), sat(v * (1 + pc / 100) for v in c), f'brightnessadjust({c},{pc})', 0, 1.001)
    lo, hi = sorted(sat([l1, l2]))
    close(list(C.thresholdadjust(list(c), [l1, l2])), [v / m * max(lo, min(hi, m)) for v in c], f'thresholdadjust({c},{[l1, l2]})', 0, 1.001)
    k = [v * 3 for v in f]
    close(list(C.colorfilter(list(c), k)), sat(x * y for x, y in zip(c, k)), f'colorfilter({c},{k})', 0, 1.001)
    for fn in (C.gammacorrect, C.brightnessadjust):
        need(all(isinstance(v, int) and 0 <= v <= 255 for v in fn(list(c), g)), '%s(%s,%s) leaves a byte: %s', fn.__name__, c, g, fn(list(c), g))
    return max(c) > 0


@P.part(st.integers(-2, 33), quick=40, rule='a supported depth')
def depths(bits):
    """Only 1, 4, 8 and 24 bits are supported depths, palettes have an entry per colour, and luminosity ranges say what their names say."""
    same(bool(C.isvalidcolorbit(bits)), bits in (1, 4, 8, 24), f'isvalidcolorbit({bits})')
    if bits in (1, 4, 8):
        same([list(p) for p in C.getdefaultbitpal(bits)], M.defaultpal(bits), f'default palette of {bits} bits')
    lr = C.getdefaultlumrange()
    want = {'max': (0, 255), 'mid': (64, 192), 'upper': (128, 255), 'lower': (0, 128)}
    same({k: list(v) for k, v in lr.items()}, {k + d: list(v) if d == 'asc' else list(v)[::-1] for k, v in want.items() for d in ('asc', 'desc')}, 'luminosity ranges')
    return bits in (1, 4, 8, 24)
