"""C09 copying parts: crop, copy and paste of rectangles, raw row access, vertical slices, iteration over a rectangle."""
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C09')


@st.composite
def boxed(draw, pads=(0,) * 9 + (4,), bits=M.BITS, maxw=40):
    img = draw(M.images(bits=bits, maxw=maxw, maxh=14))
    pad = draw(st.sampled_from(list(pads)))
    return {'img': img, 'r': [draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad)), draw(M.coord(img['w'], pad)), draw(M.coord(img['h'], pad))]}


def box(case, img):
    x1, y1, x2, y2 = case['r']
    ok = img.inside(x1, y1) and img.inside(x2, y2)
    return ok, min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)


def sub(img, x1, y1, x2, y2):
    return M.Img(x2 - x1 + 1, y2 - y1 + 1, img.bits, [r[x1:x2 + 1] for r in img.px[y1:y2 + 1]], None if img.pal is None else [list(c) for c in img.pal])


@P.part(boxed(), quick=1500, rule='the rectangle lies inside and has more than one pixel')
def crops(case):
    """A crop is a new bitmap of exactly the rectangle with the palette of the source; the source is left alone."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    ok, x1, y1, x2, y2 = box(case, img)
    got, out = quiet(b.crop, bmp, *case['r'])
    what = f'crop {case["r"]} of {img.w}x{img.h} {img.bits}-bit'
    same(bytes(bmp), keep, 'source of ' + what)
    if not ok:
        need(got is None and 'out of bounds' in out, '%s: not refused', what)
        return False
    M.expect(got, sub(img, x1, y1, x2, y2), what)
    return (x2 - x1) + (y2 - y1) > 0


@st.composite
def pasted(draw):
    c = draw(boxed(pads=(0,)))
    c['img2'] = draw(M.images(bits=(c['img']['bits'],), maxw=44, maxh=16))
    n, m = abs(c['r'][0] - c['r'][2]) + 1, abs(c['r'][1] - c['r'][3]) + 1
    if draw(st.integers(0, 3)):     # mostly a target that can hold the rectangle
        c['img2']['w'] = max(c['img2']['w'], n + draw(st.integers(0, 9)))
        c['img2']['h'] = max(c['img2']['h'], m + draw(st.integers(0, 5)))
        c['at'] = [draw(st.integers(0, c['img2']['w'] - n)), draw(st.integers(0, c['img2']['h'] - m))]
    else:
        c['at'] = [draw(M.coord(c['img2']['w'], 5)), draw(M.coord(c['img2']['h'], 5))]
    c['other'] = draw(st.integers(0, 9)) == 0
    return c


@P.part(pasted(), quick=2000, rule='the rectangle fits into the target and has more than one pixel')
def copy_and_paste(case):
    """Copying a rectangle and pasting it reproduces it at the place named, or is refused when it does not fit."""
    img, dst = M.from_case(case['img']), M.from_case(case['img2'])
    bmp, tgt = M.to_bmp(img), M.to_bmp(dst)
    _, x1, y1, x2, y2 = box(case, img)
    part = sub(img, x1, y1, x2, y2)
    keep = bytes(bmp)
    buf, _ = quiet(b.copyrect, bmp, *case['r'])
    same(bytes(bmp), keep, 'source of the copy')
    px, py = case['at']
    what = f'paste of {part.w}x{part.h} ({img.bits}-bit, from {case["r"]}) at {case["at"]} of {dst.w}x{dst.h}'
    if case['other']:
        alien = M.to_bmp(M.Img(dst.w, dst.h, 8 if img.bits != 8 else 24, pal=M.defaultpal(8)))
        k = bytes(alien)
        _, out = quiet(b.pasterect, alien, buf, px, py)
        same(bytes(alien), k, what + ' into another depth')
        need(out, 'no message for a depth mismatch')
    _, out = quiet(b.pasterect, tgt, buf, px, py)
    if not (dst.inside(px, py) and dst.inside(px + part.w - 1, py + part.h - 1)):
        M.expect(tgt, dst, what + ' (does not fit)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    want = dst.copy()
    for j in range(part.h):
        want.px[py + j][px:px + part.w] = part.px[j]
    M.expect(tgt, want, what)
    new, _ = quiet(b.convertselection2BMP, buf)
    M.expect(new, part, 'bitmap made of ' + what, pal=False)
    return part.w * part.h > 1


@P.part(st.tuples(M.hexes(1, 8), st.sampled_from([0, 2, 3, 16, 32, 255])).map(list), quick=100, rule='always')
def bad_selection(case):
    buf = array('B', [case[1]]) + array('B', bytes.fromhex(case[0]))
    got, out = quiet(b.convertselection2BMP, buf)
    need(got == -1 and out, 'buffer with depth %s accepted', case[1])
    return True


@P.part(boxed(pads=(0,)), quick=1000, rule='the rectangle has more than one pixel')
def iterate_rectangle(case):
    """Iterating a rectangle gives every pixel once, top to bottom, with its value; iterating the image likewise."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    _, x1, y1, x2, y2 = box(case, img)
    got = [(tuple(v), c) for v, c in b.itergetcolorfromrectregion(bmp, *case['r'])]
    same(got, [((x, y), img.px[y][x]) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)], f'colors of {case["r"]}')
    if img.bits >= 8:
        n = img.bits // 8
        rows = [bytes(r) for r in b.itercopyrect(bmp, *case['r'])]
        enc = [M.encode_rows(sub(img, x1, y, x2, y))[:(x2 - x1 + 1) * n] for y in range(y2, y1 - 1, -1)]
        same(rows, enc, f'rows of {case["r"]}')
    same(bytes(bmp), keep, 'iterated bitmap')
    return x2 > x1 or y2 > y1


@st.composite
def sparse(draw):
    """Pictures that are mostly one value, of widths that fill whole bytes and others."""
    img = draw(M.images(maxw=40, maxh=12))
    if draw(st.integers(0, 3)) == 0:
        img['solid'] = 1
        img['d'] = draw(st.sampled_from(['00', '0000000001', 'ff', 'ffffffff00', '00000000000000000001']))
        if draw(st.booleans()) and img['w'] < 41:
            img['w'] = draw(st.integers(1, 6)) * 8
    return img


@P.part(sparse(), quick=1000, rule='more than one pixel')
def iterate_image(case):
    """Iterating a bitmap gives every pixel exactly once with its colour, and no padding."""
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    what = f'{img.w}x{img.h} {img.bits}-bit'
    got, out = quiet(lambda: list(b.iterimagecolor(bmp, 'start', '*', 'done')))
    same(sorted((tuple(v), c) for v, c in got), sorted(((x, y), img.px[y][x]) for y in range(img.h) for x in range(img.w)), 'colors of ' + what)
    need('start' in out and 'done' in out and out.count('*') == img.h, 'progress messages of %s: %r', what, out)
    got, _ = quiet(lambda: list(b.iterimageRGB(bmp, '', '', '')))
    same(sorted((tuple(v), tuple(c)) for v, c in got), sorted(((x, y), img.rgb(x, y)) for y in range(img.h) for x in range(img.w)), 'RGB of ' + what)
    return img.w * img.h > 1


@st.composite
def raw(draw):
    img = draw(M.images(maxw=40, maxh=10))
    total = M.rowbytes(img['w'], img['bits']) * img['h']
    k = draw(st.integers(0, 2))
    n = draw(st.integers(1, total if k else total + 6))
    off = draw(st.integers(0, total - n)) if k and n <= total else draw(st.sampled_from([-9, -1, 0, total - n, total - n + 1, total, total + 7]))
    return {'img': img, 'off': off, 'n': n, 'd': draw(M.hexes(1, 6))}


@P.part(raw(), quick=600, rule='the block lies inside the image')
def raw_blocks(case):
    """Raw reads and writes move exactly the bytes named and refuse blocks that leave the image."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    off, n = case['off'], case['n']
    d = bytes.fromhex(case['d'])
    data = array('B', [M.content(d, i) for i in range(n)])
    total = M.rowbytes(img.w, img.bits) * img.h
    h = M.HDR[img.bits]
    ok = 0 <= off and off + n <= total
    keep = bytes(bmp)
    got, out = quiet(b.BMPbitBLTget, bmp, off, n)
    same(bytes(got), keep[h + off:h + off + n] if ok else b'', f'block {off}+{n} of {total}')
    need(ok or 'nvalid' in out or 'ffset' in out, 'no message for block %s+%s of %s', off, n, total)
    same(bytes(bmp), keep, 'bitmap after a read')
    _, out = quiet(b.BMPbitBLTput, bmp, off, data)
    same(bytes(bmp), keep[:h + off] + bytes(data) + keep[h + off + n:] if ok else keep, f'write of block {off}+{n} of {total}')
    need(ok or out, 'no message for writing %s+%s of %s', off, n, total)
    bmp = M.to_bmp(img)
    whole = b.getBMPimgbytes(bmp)
    same(bytes(whole), keep[h:], 'image bytes')
    new = array('B', [v ^ 255 for v in whole])
    b.setBMPimgbytes(bmp, new)
    same(bytes(bmp), keep[:h] + bytes(new), 'image bytes replaced')
    same(bytes(b.getBGRpalbuf(bmp)), keep[54:h], 'palette bytes')
    return ok


@st.composite
def slices(draw):
    img = draw(M.images(bits=(8, 24), maxw=20, maxh=20))
    return {'img': img, 'x': draw(M.coord(img['w'], 3)), 'y1': draw(M.coord(img['h'], 4)), 'y2': draw(M.coord(img['h'], 4))}


@P.part(slices(), quick=600, rule='more than one pixel of the column is read')
def vertical_slices(case):
    """A vertical read gives the column bottom up, clipped to the bitmap."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y1, y2 = case['x'], case['y1'], case['y2']
    a, z = max(min(y1, y2), 0), min(max(y1, y2), img.h - 1)
    if a > z:
        return False
    got, out = quiet(b.vertBMPbitBLTget, bmp, x, y1, y2)
    what = f'column {x} rows {y1}..{y2} of {img.w}x{img.h} {img.bits}-bit'
    if not 0 <= x < img.w:
        need(got is None and out, '%s: not refused', what)
        return False
    want = b''.join(img.px[y][x].to_bytes(img.bits // 8, 'little') for y in range(z, a - 1, -1))
    same(bytes(got), want, what)
    return z > a
