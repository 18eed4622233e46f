"""C10 resizing, pixelizing, magnifying and depth upgrade."""
from array import array
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
import pythonbmp.bufresize as br

P = Prop('C10')


@st.composite
def sized(draw, bits=M.BITS, maxw=24, maxh=12, maxn=6):
    img = draw(M.images(bits=bits, maxw=maxw, maxh=maxh))
    top = max(1, 600 // max(img['w'], img['h']))
    return {'img': img, 'n': draw(M.rare(st.integers(1, min(maxn, top)), st.integers(min(maxn, top), min(40, top)), 16))}


def blow(img, n):
    return M.Img(img.w * n, img.h * n, img.bits, [[v for v in r for _ in range(n)] for r in img.px for _ in range(n)], img.pal)


@P.part(sized(), quick=1500, rule='factor above one')
def bigger(case):
    """Enlarging n times makes every pixel an n by n block of the same value and keeps the palette."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    got, _ = quiet(b.resizeNtimesbigger, bmp, case['n'])
    M.expect(got, blow(img, case['n']), f'{img.w}x{img.h} {img.bits}-bit enlarged {case["n"]} times')
    same(bytes(bmp), keep, 'source of the enlargement')
    b.plotxybit(got, 0, 0, img.px[0][0] ^ 1)
    same(bytes(bmp), keep, 'source of the enlargement, after drawing on the enlarged bitmap')
    return case['n'] > 1


def averages(img, n):
    """Exact block sums, n*n samples each; blocks are counted from the lower left corner."""
    out = []
    top = img.h % n
    for y in range(img.h // n):
        row = []
        for x in range(img.w // n):
            s = [0, 0, 0]
            for j in range(n):
                for i in range(n):
                    for k, v in enumerate(img.rgb(x * n + i, top + y * n + j)):
                        s[k] += v
            row.append(s)
        out.append(row)
    return out


def check_small(got, img, n, what, rep=1):
    s = averages(img, n)
    need((got.w, got.h, got.bits) == (img.w // n * rep, img.h // n * rep, 24), '%s: size %sx%s', what, got.w, got.h)
    for y in range(got.h):
        for x in range(got.w):
            for k, v in enumerate(got.rgb(x, y)):
                # the nearest integer to the mean; either neighbour when it lies half way
                need(abs(v * n * n - s[y // rep][x // rep][k]) * 2 <= n * n, '%s: (%s,%s) is %s, mean of its block %s', what, x, y,
                     got.rgb(x, y), [c / n / n for c in s[y // rep][x // rep]])


@P.part(sized(bits=(24,), maxw=30, maxh=18), quick=1500, rule='at least two blocks and a factor above one')
def smaller(case):
    """Shrinking n times makes every pixel the rounded mean of its n by n block; pixelizing shows that mean in the whole block."""
    img = M.from_case(case['img'])
    n = case['n']
    if img.w < n or img.h < n:
        return False
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    got, _ = quiet(b.resizeNtimessmaller, bmp, n)
    check_small(M.parse(got), img, n, f'{img.w}x{img.h} shrunk {n} times')
    b.plotxybit(got, 0, 0, img.px[0][0] ^ 1)
    same(bytes(bmp), keep, 'source, after drawing on the smaller bitmap')
    got, _ = quiet(b.pixelizenxn, bmp, n)
    check_small(M.parse(got), img, n, f'{img.w}x{img.h} pixelized by {n}', n)
    b.plotxybit(got, 0, 0, img.px[0][0] ^ 1)
    same(bytes(bmp), keep, 'source')
    return n > 1 and (img.w // n) * (img.h // n) > 1


@P.part(sized(), quick=200, rule='the bitmap is not 24-bit')
def shrink_needs_24(case):
    img = M.from_case(case['img'])
    if img.bits == 24:
        return False
    bmp = M.to_bmp(img)
    got, out = quiet(b.resizeNtimessmaller, bmp, case['n'])
    need(got is None and '24' in out, 'shrinking a %s-bit bitmap was not refused', img.bits)
    M.expect(bmp, img, 'refused bitmap')
    return True


@P.part(M.images(maxw=40), quick=1000, rule='the bitmap is not 24-bit')
def upgrades(case):
    """The 24-bit copy of a palette bitmap shows the same colours."""
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    got, out = quiet(b.upgradeto24bitimage, bmp)
    rows = [[(lambda c: c[0] << 16 | c[1] << 8 | c[2])(img.rgb(x, y)) for x in range(img.w)] for y in range(img.h)]
    M.expect(got, M.Img(img.w, img.h, 24, rows), f'24-bit copy of {img.w}x{img.h} {img.bits}-bit')
    same(bytes(bmp), keep, 'source of the upgrade')
    need((img.bits == 24) == ('24' in out), 'message %r for %s bits', out, img.bits)
    return img.bits < 24


@st.composite
def circ24(draw, maxn=5):
    img = draw(M.images(bits=(24,), maxw=40, maxh=30, minw=5, minh=5))
    w, h = img['w'], img['h']
    r = draw(st.integers(0, (min(w, h) - 1) // 2))
    x = draw(st.one_of(st.integers(r, w - 1 - r), st.sampled_from([r, w - 1 - r])))
    y = draw(st.one_of(st.integers(r, h - 1 - r), st.sampled_from([r, h - 1 - r])))
    if draw(st.integers(0, 7)) == 0:
        x += draw(st.sampled_from([-9, 9, -1, 1]))
    return {'img': img, 'x': x, 'y': y, 'r': r, 'n': draw(M.rare(st.integers(1, min(maxn, w, h)), st.integers(1, min(12, w, h)), 12))}


@P.part(circ24(), quick=900, rule='the circle lies inside, its radius is above one and the factor above one')
def circles(case):
    """Magnifying or pixelizing a circle changes only that circle, and there shows the magnified or pixelized image."""
    img = M.from_case(case['img'])
    x, y, r, n = (case[k] for k in 'xyrn')
    inside = img.inside(x - r, y - r) and img.inside(x + r, y + r)
    core, rim = S.disc_parts(img, x, y, r)
    what = f'circle ({x},{y}) r={r} of {img.w}x{img.h} by {n}'
    bmp = M.to_bmp(img)
    _, out = quiet(b.magnifyNtimescircregion, bmp, x, y, r, n)
    if not inside:
        M.expect(bmp, img, what + ' out of bounds')
        need('out of bounds' in out, '%s: no message', what)
    else:
        S.treated(bmp, img, core, rim, lambda i, j, v: v == img.px[(y * n + j - y) // n][(x * n + i - x) // n], 'magnified ' + what)
    bmp = M.to_bmp(img)
    _, out = quiet(b.pixelizenxncircregion, bmp, x, y, r, n)
    if not inside:
        M.expect(bmp, img, what + ' out of bounds')
        need('out of bounds' in out, '%s: no message', what)
        return False
    s = averages(img, n)

    def ok(i, j, v):
        if i // n >= img.w // n or j // n >= img.h // n:
            return v == img.px[j][i]
        return all(abs(c * n * n - t) * 2 <= n * n for c, t in zip(((v >> 16), (v >> 8) & 255, v & 255), s[j // n][i // n]))
    S.treated(bmp, img, core, rim, ok, 'pixelized ' + what)
    return inside and r > 1 and n > 1


@P.part(st.tuples(st.sampled_from([1, 4, 8, 24]), M.hexes(1, 8), M.rare(st.integers(1, 6), st.integers(7, 700), 16)).map(list), quick=500, rule='factor above one')
def buffers(case):
    """A packed row enlarged n times repeats every pixel of it n times."""
    bits, d, n = case
    raw = bytes.fromhex(d)
    if bits == 24:
        raw = (raw * 3)[:max(3, len(raw) // 3 * 3)]

    def unpack(buf, k):
        img = M.Img(k, 1, bits)
        v = int.from_bytes(buf, 'big')
        tot = len(buf) * 8
        return [(v >> (tot - (i + 1) * bits)) & ((1 << bits) - 1) for i in range(k)]
    k = len(raw) * 8 // bits
    got = br.resizebufNtimesbigger(array('B', raw), n, bits)
    same(len(got), len(raw) * n, 'length of the enlarged row')
    same(unpack(bytes(got), k * n), [v for v in unpack(raw, k) for _ in range(n)], f'{bits}-bit row {raw.hex()} enlarged {n} times')
    return n > 1
