"""C02 geometry of new bitmaps and the metadata queries."""
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same
import pythonbmp.BITMAPlib as b

P = Prop('C02')


def hugedims():
    return st.one_of(st.tuples(st.sampled_from([65535, 65536, 65537, 70001, 131072]), st.integers(1, 2)),
                     st.tuples(st.integers(1, 3), st.sampled_from([65535, 65536, 66001])),
                     st.tuples(st.integers(4090, 4110), st.integers(1360, 1370)))


@P.part(st.tuples(M.dims(64, 40), st.sampled_from(M.BITS)), quick=600, rule='every case (new bitmap of random size and depth)')
def new_bitmap(case):
    (w, h), bits = case
    bmp = b.newBMP(w, h, bits)
    need(isinstance(bmp, array) and bmp.typecode == 'B', 'a bitmap is a byte array, got %r', type(bmp))
    blank = M.Img(w, h, bits)
    blank.pal = M.defaultpal(bits) if bits < 24 else None
    M.expect(bmp, blank, 'new bitmap')
    same(b.getmaxx(bmp), w, 'width')
    same(b.getmaxy(bmp), h, 'height')
    same(tuple(b.getmaxxy(bmp)), (w, h), 'size')
    same(b.getmaxxyandbits(bmp), ((w, h), bits), 'size and depth')
    same(tuple(b.bottomrightcoord(bmp)), (w - 1, h - 1), 'bottom right coordinate')
    same(tuple(b.centercoord(bmp)), ((w - 1) // 2, (h - 1) // 2), 'center coordinate')
    same(b.getmaxcolors(bmp), 2 ** bits, 'number of colors')
    need(len(b.getBMPimgbytes(bmp)) == M.rowbytes(w, bits) * h, 'image byte count is %s', len(b.getBMPimgbytes(bmp)))
    if bits < 24:
        same([list(c) for c in b.getallRGBpal(bmp)], M.defaultpal(bits), 'default palette')
        need(b.isdefaultpal(bmp) is True, 'a new bitmap should report the default palette')
    return True


@P.part(st.tuples(hugedims(), st.sampled_from(M.BITS)), quick=24, rule='dimension beyond 16 bits, or more than 16 MB of pixels at 24 bit')
def large_bitmap(case):
    (w, h), bits = case
    bmp = b.newBMP(w, h, bits)
    same(len(bmp), M.HDR[bits] + M.rowbytes(w, bits) * h, 'byte count of a large bitmap')
    same(int.from_bytes(bytes(bmp[2:6]), 'little'), len(bmp), 'size field of a large bitmap')
    same(int.from_bytes(bytes(bmp[18:22]), 'little'), w, 'width field')
    same(int.from_bytes(bytes(bmp[22:26]), 'little'), h, 'height field')
    same(b.getmaxxyandbits(bmp), ((w, h), bits), 'size and depth of a large bitmap')
    same((b.getmaxx(bmp), b.getmaxy(bmp)), (w, h), 'width and height of a large bitmap')
    same(tuple(b.getmaxxy(bmp)), (w, h), 'size of a large bitmap')
    same(tuple(b.bottomrightcoord(bmp)), (w - 1, h - 1), 'bottom right coordinate of a large bitmap')
    same(tuple(b.centercoord(bmp)), ((w - 1) // 2, (h - 1) // 2), 'center coordinate of a large bitmap')
    for p in ((w - 1, h - 1), (w, h - 1), (w - 1, h), (w // 2, h // 2)):
        same(bool(b.isinBMPrectbnd(bmp, *p)), p[0] < w and p[1] < h, f'inside test of {p} in {w}x{h}')
    other = b.CopyBMPxydim2newBMP(bmp, 1)
    same(b.getmaxxyandbits(other), ((w, h), 1), 'dimensions of a large bitmap taken over')
    c = 1 if bits == 1 else (1 << bits) - 2
    for x, y in ((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)):
        b.plotxybit(bmp, x, y, c)
        same(b.getxybit(bmp, x, y), c, f'pixel ({x},{y}) of a {w}x{h} bitmap')
    b.saveBMP('big.bmp', bmp)
    same(b.loadBMP('big.bmp') == bmp, True, 'large bitmap reloads unchanged')
    return True


@P.part(st.tuples(M.images(maxw=16, maxh=12), st.integers(-8, 40), st.integers(-8, 40)), quick=400,
        rule='point outside the bitmap, or on its border')
def bounds(case):
    c, x, y = case
    img = M.from_case(c)
    bmp = M.to_bmp(img)
    for px, py in ((x, y), (img.w - 1, img.h - 1), (img.w, img.h - 1), (img.w - 1, img.h), (0, -1), (-1, 0), (0, 0)):
        same(bool(b.isinBMPrectbnd(bmp, px, py)), img.inside(px, py), f'inside test of ({px},{py}) in {img.w}x{img.h}')
    return not (1 <= x < img.w - 1 and 1 <= y < img.h - 1)


@P.part(st.tuples(M.images(maxw=12, maxh=8), st.lists(st.tuples(st.integers(-2, 14), st.integers(-2, 10)), min_size=1, max_size=6)),
        quick=300, rule='list with points both inside and outside')
def bounds_list(case):
    img = M.from_case(case[0])
    ins = [img.inside(x, y) for x, y in case[1]]
    same(bool(b.listinBMPrecbnd(M.to_bmp(img), [tuple(p) for p in case[1]])), all(ins), f'all of {case[1]} inside {img.w}x{img.h}')
    return any(ins) and not all(ins)


@P.part(st.tuples(M.images(maxw=30, maxh=12), st.sampled_from(M.BITS)), quick=250, rule='target depth differs from the source depth')
def same_size_other_depth(case):
    img = M.from_case(case[0])
    bmp = M.to_bmp(img)
    new = b.CopyBMPxydim2newBMP(bmp, case[1])
    blank = M.Img(img.w, img.h, case[1])
    blank.pal = M.defaultpal(case[1]) if case[1] < 24 else None
    M.expect(new, blank, 'blank bitmap with the dimensions of another')
    M.expect(bmp, img, 'source bitmap')
    hd = b.copyBMPhdr(bmp)
    z = img.copy()
    z.px = [[0] * img.w for _ in range(img.h)]
    M.expect(hd, z, 'blank bitmap with the header of another')
    M.expect(bmp, img, 'source bitmap')
    return case[1] != img.bits


@P.part(st.tuples(M.images(maxw=20, maxh=10), M.hexes(1, 20)), quick=200, rule='every case')
def raw_image_bytes(case):
    img = M.from_case(case[0])
    bmp = M.to_bmp(img)
    same(bytes(b.getBMPimgbytes(bmp)), M.encode_rows(img), 'raw image bytes')
    other = M.from_case(dict(case[0], d=case[1]))
    b.setBMPimgbytes(bmp, array('B', M.encode_rows(other)))
    other.pal = img.pal
    M.expect(bmp, other, 'bitmap after replacing its image bytes')
    return True


@P.part(M.images(bits=(1, 4, 8), maxw=6, maxh=4, big=False), quick=200, rule='palette that differs from the default in at least one entry')
def default_palette_test(case):
    img = M.from_case(case)
    same(bool(b.isdefaultpal(M.to_bmp(img))), img.pal == M.defaultpal(img.bits), 'default palette test')
    j = case['w'] * 7 % len(img.pal)
    i2 = M.from_case({k: v for k, v in case.items() if k != 'p'})
    i2.pal[j] = [i2.pal[j][0], i2.pal[j][1], i2.pal[j][2] ^ 1]
    same(bool(b.isdefaultpal(M.to_bmp(i2))), False, f'default palette test after changing entry {j}')
    return True
