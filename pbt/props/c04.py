"""C04 palette operations."""
import json
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, close, quiet
import pythonbmp.BITMAPlib as b
import pythonbmp.colors as C

P = Prop('C04')
INDEXED = (1, 4, 8)
rgb = st.lists(st.integers(0, 255), min_size=3, max_size=3)
factor = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1, allow_nan=False, width=32))
factors = st.lists(factor, min_size=3, max_size=3)


def small(bits=INDEXED):
    return M.images(bits=bits, maxw=8, maxh=5, big=False)


@st.composite
def edits(draw):
    img = draw(small())
    n = 1 << img['bits']
    return {'img': img, 'ops': draw(st.lists(st.tuples(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1])), rgb), min_size=1, max_size=6))}


@P.part(edits(), quick=400, rule='every case sets at least one entry')
def entry_set_get(case):
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    for i, c in case['ops']:
        b.setRGBpal(bmp, i, *c)
        img.pal[i] = list(c)
        same(list(b.getRGBpal(bmp, i)), list(c), f'palette entry {i} read back')
        M.expect(bmp, img, f'after setting palette entry {i}')
    same([list(c) for c in b.getallRGBpal(bmp)], img.pal, 'whole palette')
    return True


@st.composite
def bulk(draw):
    img = draw(small())
    n = 1 << img['bits']
    seed = bytes.fromhex(draw(M.hexes(1, 20)))
    ln = draw(st.one_of(st.just(n), st.just(n), st.sampled_from([0, 1, n - 1, n + 1])))
    return {'img': img, 'pal': [[M.content(seed, 3 * i + j) for j in range(3)] for i in range(ln)],
            'kind': draw(st.sampled_from(['rgb', 'bgr', 'bgra']))}


@P.part(bulk(), quick=400, rule='list with exactly one color per palette slot')
def bulk_set(case):
    """Setting the whole palette stores every entry; a list of the wrong length changes nothing."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    pal, kind = [list(p) for p in case['pal']], case['kind']
    if kind == 'rgb':
        b.setbmppal(bmp, pal)
    elif kind == 'bgr':
        b.setbmppalwithBGRlist(bmp, [[q, g, r] for r, g, q in pal])
    else:
        b.setbmppalwithBGRAlist(bmp, [[q, g, r, 0] for r, g, q in pal])
    if len(pal) == 1 << img.bits:
        img.pal = pal
        M.expect(bmp, img, f'after setting the palette ({kind})')
        same([list(c) for c in b.getallRGBpal(bmp)], pal, 'palette read back')
        return True
    same(bytes(bmp), keep, f'bitmap after a palette of {len(pal)} entries')
    return False


@P.part(st.tuples(M.images(bits=M.BITS, maxw=8, maxh=5, big=False), st.integers(-600, 600)), quick=500,
        rule='4 or 8 bit bitmap, shift that is not a multiple of the palette size')
def shift_rotates(case):
    """Palette shift is a rotation by |shift| of 4 and 8 bit palettes, and is refused elsewhere."""
    img = M.from_case(case[0])
    bmp = M.to_bmp(img)
    quiet(b.palshift, bmp, case[1])
    if img.bits in (4, 8):
        n = 1 << img.bits
        k = abs(case[1]) % n
        img.pal = img.pal[k:] + img.pal[:k]
    M.expect(bmp, img, f'after shifting the palette by {case[1]}')
    return img.bits in (4, 8) and case[1] % (1 << img.bits) != 0


@P.part(M.images(bits=(4, 8), maxw=5, maxh=3, big=False), quick=60, rule='every case (all frames of the cycle compared)')
def cycle_frames(case):
    """Color cycling yields one frame per palette slot, frame k rotated by k."""
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    n, k = 1 << img.bits, 0
    for fr in b.itercolorcycle(bmp):
        w = img.copy()
        w.pal = img.pal[k % n:] + img.pal[:k % n]
        M.expect(fr, w, f'frame {k} of the color cycle')
        k += 1
        need(k <= n, 'more than %s frames', n)
    same(k, n, 'number of frames')
    return True


@st.composite
def copies(draw):
    a = draw(small())
    c = draw(st.fixed_dictionaries({'w': st.integers(1, 9), 'h': st.integers(1, 5), 'd': M.hexes(), 'p': M.hexes(1, 12)}))
    c['bits'] = a['bits']
    return [a, c]


@P.part(copies(), quick=250, rule='two bitmaps with different palettes')
def copy_palette(case):
    i1, i2 = M.from_case(case[0]), M.from_case(case[1])
    b1, b2 = M.to_bmp(i1), M.to_bmp(i2)
    nt = i1.pal != i2.pal
    b.copyRGBpal(b1, b2)
    i2.pal = [list(c) for c in i1.pal]
    M.expect(b2, i2, 'destination of a palette copy')
    M.expect(b1, i1, 'source of a palette copy')
    return nt


def near(got, want, what, tol=0.5000001):
    need(len(got) == len(want), '%s: %s entries, expected %s', what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        need(len(g) == len(w) and all(float(u).is_integer() and abs(u - v) <= tol for u, v in zip(g, w)), '%s: entry %s is %s, expected about %s', what, i, list(g), list(w))


def lums(bits):
    n = 1 << bits
    return [255 * i // (n - 1) for i in range(n)]


@P.part(st.tuples(st.sampled_from(INDEXED), factors, M.rare(st.integers(1, 40), st.integers(-40, 300), 4), st.integers(-300, 300)), quick=400,
        rule='color factors that are not all zero')
def generated_palettes(case):
    """Monochrome palettes run evenly from 0 to 255 times the colour, optionally inverted, multiplied and shifted."""
    bits, f, mult, shift = case
    n = 1 << bits
    L = lums(bits)
    near(C.monochromepal(bits, f), [[f[0] * v, f[1] * v, f[2] * v] for v in L], 'monochrome palette')
    s = [(v * mult + shift) % 256 for v in L]
    near(C.monoshiftablepal(bits, f, mult, shift), [[f[0] * v, f[1] * v, f[2] * v] for v in s], 'shifted palette')
    t = [((255 - v) * mult + shift) % 256 for v in L]
    near(C.monoinverseshiftablepal(bits, f, mult, shift), [[f[0] * v, f[1] * v, f[2] * v] for v in t], 'inverse palette')
    near(C.monoinverseshiftableBGRpal(bits, f, mult, shift), [[f[2] * v, f[1] * v, f[0] * v] for v in t], 'inverse BGR palette')
    near(C.monoinverseshiftableBGRApal(bits, f, mult, shift), [[f[2] * v, f[1] * v, f[0] * v, 0] for v in t], 'inverse BGRA palette')
    same(len(C.monochromepal(bits, f)), n, 'palette length')
    return any(f)


@P.part(st.tuples(st.integers(0, 0xFFFFFF), st.integers(0, 0xFFFFFF), st.sampled_from([2, 16, 256, 7]), st.sampled_from([1, 3]), st.integers(0, 40)),
        quick=250, rule='two different colors')
def dichromatic(case):
    """A two-colour palette blends linearly from one colour to the other, laid out with the given stride."""
    c1, c2, n, mult, shift = case
    if n == 7 and mult not in (1, 3):
        return False
    got = C.dichromaticpal(c1, c2, n, mult, shift)
    a, z = [c1 >> 16, c1 >> 8 & 255, c1 & 255], [c2 >> 16, c2 >> 8 & 255, c2 & 255]
    want = [None] * n
    for i in range(n):
        want[((n - i) * mult + shift) % n] = [p + (q - p) * i / n for p, q in zip(a, z)]
    near(got, want, 'two-color palette', 0.51)
    bg = C.RGB2BGRAlist([list(map(int, g)) for g in got])
    same([list(x) for x in bg], [[int(g[2]), int(g[1]), int(g[0]), 0] for g in got], 'BGRA form of the palette')
    return c1 != c2


@st.composite
def recolor(draw):
    return {'img': draw(small()), 'f': draw(factors), 'mult': draw(M.rare(st.integers(1, 40), st.integers(-40, 300), 4)), 'shift': draw(st.integers(-300, 300)),
            'c': [draw(st.integers(0, 0xFFFFFF)), draw(st.integers(0, 0xFFFFFF))], 'pct': draw(st.floats(-100, 150, width=32))}


@P.part(recolor(), quick=300, rule='every case')
def recolor_bitmap(case):
    """Recolouring a bitmap's palette installs the generated palette and leaves every pixel alone."""
    img = M.from_case(case['img'])
    f, n = case['f'], 1 << img.bits
    for what, call, want, tol in (
        ('monochrome', lambda z: b.setBMP2monochrome(z, f), [[c * v for c in f] for v in lums(img.bits)], 0.5000001),
        ('inverse shifted', lambda z: b.setBMP2invshiftedmonochrome(z, f, case['mult'], case['shift']),
         [[c * v for c in f] for v in [((255 - v) * case['mult'] + case['shift']) % 256 for v in lums(img.bits)]], 0.5000001),
        ('two-color', lambda z: b.setBMP2dichromaticpal(z, *case['c']), None, 0)):
        bmp = M.to_bmp(img)
        call(bmp)
        got = M.parse(bmp)
        if want is None:
            a, z = [[c >> 16, c >> 8 & 255, c & 255] for c in case['c']]
            want = [None] * n
            for i in range(n):
                want[((n - i) * 3) % n] = [p + (q - p) * i / n for p, q in zip(a, z)]
            tol = 0.51
        near(got.pal, want, what + ' palette of the bitmap', tol)
        w = img.copy()
        w.pal = got.pal
        M.expect(bmp, w, what + ' recoloring')
    bmp = M.to_bmp(img)
    adj = b.RGBpalbrightnessadjust(bmp, case['pct'])
    m = 1 + case['pct'] / 100
    near(adj, [[min(255, max(0, v * m)) for v in c] for c in img.pal], 'brightness adjusted palette', 0.501)
    M.expect(bmp, img, 'bitmap after computing an adjusted palette')
    return True


@P.part(st.tuples(st.integers(1, 12), st.integers(1, 6), st.sampled_from(M.BITS), st.one_of(factors, st.lists(st.integers(0, 0xFFFFFF), min_size=2, max_size=2))),
        quick=200, rule='indexed bitmap')
def new_with_palette(case):
    w, h, bits, f = case
    bmp = b.newBMPwithPAL(w, h, bits, f)
    blank = M.Img(w, h, bits)
    ref = b.newBMP(w, h, bits)
    if bits < 24:
        if len(f) == 3:
            b.setBMP2invshiftedmonochrome(ref, f)
        else:
            b.setBMP2dichromaticpal(ref, f[0], f[1])
        blank.pal = M.parse(ref).pal
    M.expect(bmp, blank, 'new bitmap with a generated palette')
    return bits < 24


def pick(hist, n, thr):
    """The first colours of a histogram at least thr apart; None where one is as good as at that distance."""
    want = [[0, 0, 0]]
    for _, c in hist:
        if len(want) == n:
            break
        rgb_ = [c >> 16, c >> 8 & 255, c & 255]
        ds = [sum((u - v) ** 2 for u, v in zip(rgb_, p)) ** .5 for p in want]
        if any(abs(d - thr) < 1e-6 for d in ds) and thr % 1:
            return None
        if min(ds) >= thr:
            want.append(rgb_)
    return want


@P.part(st.tuples(st.lists(st.tuples(st.integers(1, 100), st.integers(0, 0xFFFFFF)), max_size=20), st.sampled_from([2, 16, 256, 3]), st.floats(0, 120, width=32)),
        quick=300, rule='at least two histogram colors')
def palette_from_histogram(case):
    """Colours are taken in histogram order, each at least the threshold away from those already kept."""
    hist, n, thr = [list(x) for x in case[0]], case[1], case[2]
    got, _ = quiet(b.makenewpalfromcolorhist, hist, n, thr)
    want = pick(hist, n, thr)
    if want is None:
        return False
    same([list(c) for c in got], want, f'palette of {n} from {len(hist)} colors, threshold {thr}')
    return len(hist) > 1


@st.composite
def grids(draw):
    """Histograms on a grid of colours, with a threshold that is the exact distance of some of them."""
    s = draw(st.sampled_from([1, 5, 16, 20, 51]))
    k = st.integers(0, 255 // s).map(lambda v: v * s)
    cols = draw(st.lists(st.tuples(k, k, st.sampled_from([0, s])), min_size=1, max_size=16))
    return {'hist': [[40 - i, r << 16 | g << 8 | c] for i, (r, g, c) in enumerate(cols)], 'n': draw(st.sampled_from([2, 16, 256])),
            't': draw(st.sampled_from([0, s, 2 * s, 3 * s, 5 * s]))}


@P.part(grids(), quick=500, rule='some colours are exactly the threshold apart')
def palette_at_threshold(case):
    """A colour exactly the threshold away from those kept is kept too."""
    hist, n, t = [list(x) for x in case['hist']], case['n'], case['t']
    want = pick(hist, n, t)
    same([list(c) for c in quiet(b.makenewpalfromcolorhist, hist, n, t)[0]], want, f'palette of {n} from {len(hist)} colors, threshold {t}')
    return any(sum((u - v) ** 2 for u, v in zip(p, q)) == t * t for i, p in enumerate(want) for q in want[:i])


@st.composite
def sources(draw):
    return {'src': draw(M.images(maxw=8, maxh=6, big=False)), 'dst': draw(small()), 't': draw(st.one_of(st.integers(0, 200), st.sampled_from([0, 1, 16, 400])))}


@P.part(sources(), quick=400, rule='the source has several colours and the palette is not filled')
def palette_from_picture(case):
    """A bitmap's palette set from the colours of another one: the chosen colours first, later entries, pixels and the source as they were."""
    src, dst = M.from_case(case['src']), M.from_case(case['dst'])
    sb, db = M.to_bmp(src), M.to_bmp(dst)
    what = f'palette of a {dst.bits}-bit bitmap from {src.w}x{src.h} {src.bits}-bit at {case["t"]}'
    pal, _ = quiet(b.setnewpalfromsourcebmp, sb, db, case['t'])
    hist, _ = quiet(b.colorhistogram, sb)
    same([list(c) for c in pal], [list(c) for c in quiet(b.makenewpalfromcolorhist, hist, 1 << dst.bits, case['t'])[0]], what + ': colours named')
    n = len(pal)
    need(1 <= n <= 1 << dst.bits, '%s: %s colours', what, n)
    dst.pal = [list(c) for c in pal] + dst.pal[n:]
    M.expect(db, dst, what)
    M.expect(sb, src, what + ' (source)')
    return 2 < n < 1 << dst.bits


@P.part(st.tuples(st.integers(1, 9000), st.integers(1, 0xFFFFFF), st.integers(0, 3), st.sampled_from([2, 16, 256]), st.integers(0, 0xFFFFFF), st.integers(1, 4)).map(list), quick=40,
        rule='more than a thousand colors')
def palette_from_long_histogram(case):
    """However many alike colours come first, those that are far enough from them are still taken."""
    n, start, step, size, last, most = case
    hist = [[n - i + 1, (start + i * step) & 0x3F | ((start + i * step) >> 6 & 0x3F) << 8 | ((start + i * step) >> 12 & 0x1F) << 16] for i in range(n)]
    hist += [[1, last | 0x808080 | i << 5] for i in range(most)]
    same([list(c) for c in quiet(b.makenewpalfromcolorhist, hist, size, 112)[0]], pick(hist, size, 112), f'palette of {size} from {len(hist)} colors')
    return n > 1000


@P.part(st.tuples(M.images(bits=INDEXED, maxw=3, maxh=2, big=False), st.dictionaries(st.sampled_from(list('abcdef')), st.one_of(st.integers(0, 0xFFFFFF), st.sampled_from([0, 0xFFFFFF, 0x101010])), min_size=1)),
        quick=150, rule='every case')
def color_names_to_palette(case):
    img = M.from_case(case[0])
    d = dict(case[1])
    b.adjustcolordicttopal(M.to_bmp(img), d)
    same(sorted(d), sorted(case[1]), 'color names')
    for k, c in case[1].items():
        rgb_ = [c >> 16, c >> 8 & 255, c & 255]
        dist = [sum((u - v) ** 2 for u, v in zip(rgb_, p)) for p in img.pal]
        need(dist[d[k]] == min(dist), 'color %s mapped to entry %s %s', rgb_, d[k], img.pal[d[k]])
    return True
