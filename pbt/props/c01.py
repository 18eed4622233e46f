"""C01 save/load round trip and well-formedness of the files written."""
import os, struct
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b

P = Prop('C01', ['a bitmap is the byte array the library hands out; its files are uncompressed 1/4/8/24-bit BMP'])


@P.part(M.images(maxw=40, maxh=20), quick=500, rule='any image (random depth, size incl. every row alignment and dimensions above 255, content, palette)')
def saved_file_decodes(case):
    img = M.from_case(case)
    bmp = M.to_bmp(img)
    keep = bytes(bmp)
    b.saveBMP('t.bmp', bmp)
    same(bytes(bmp), keep, 'saving changed the bitmap in memory')
    raw = open('t.bmp', 'rb').read()
    M.expect(raw, img, 'independent reading of the saved file')
    same(raw, keep, 'bytes written to disk')
    back = b.loadBMP('t.bmp')
    need(isinstance(back, array) and back.typecode == 'B', 'loading gave %r', type(back))
    same(bytes(back), keep, 'loaded bitmap')
    return True


@P.part(st.tuples(M.images(maxw=30, maxh=12), M.images(maxw=30, maxh=12)), quick=250,
        rule='two different images written to the same path')
def overwrite(case):
    c1, c2 = case
    i1, i2 = M.from_case(c1), M.from_case(c2)
    b.saveBMP('o.bmp', M.to_bmp(i1))
    b.saveBMP('o.bmp', M.to_bmp(i2))
    raw = open('o.bmp', 'rb').read()
    same(raw, M.encode(i2), 'file after a second save to the same path')
    M.expect(b.loadBMP('o.bmp'), i2, 'bitmap loaded after a second save')
    return c1 != c2


@st.composite
def newcase(draw):
    bits = draw(st.sampled_from(M.BITS))
    w, h = draw(M.dims(40, 20))
    pts = draw(st.lists(st.tuples(st.integers(0, w - 1), st.integers(0, h - 1), M.color(bits)), max_size=12))
    return {'w': w, 'h': h, 'bits': bits, 'pts': pts}


@P.part(newcase(), quick=300, rule='bitmap created and drawn on through the API with at least one pixel')
def created_bitmap_round_trip(case):
    """A bitmap made with the API (not by our encoder) survives save/load and decodes to what was drawn."""
    bmp = b.newBMP(case['w'], case['h'], case['bits'])
    img = M.Img(case['w'], case['h'], case['bits'])
    img.pal = M.defaultpal(case['bits']) if case['bits'] < 24 else None
    for x, y, c in case['pts']:
        b.plotxybit(bmp, x, y, c)
        img.set(x, y, c)
    b.saveBMP('n.bmp', bmp)
    M.expect(open('n.bmp', 'rb').read(), img, 'file of an API-made bitmap')
    back = b.loadBMP('n.bmp')
    same(bytes(back), bytes(bmp), 'loaded bitmap')
    # the loaded bitmap is a live bitmap of the same geometry
    same(b.getmaxxyandbits(back), ((case['w'], case['h']), case['bits']), 'geometry of the loaded bitmap')
    for x, y, c in case['pts']:
        same(b.getxybit(back, x, y), img.px[y][x], f'pixel ({x},{y}) of the loaded bitmap')
    return bool(case['pts'])


@P.part(st.tuples(M.images(maxw=20, maxh=8), M.hexes(1, 60)), quick=150,
        rule='well-formed file followed by extra bytes: only the declared size is the bitmap')
def trailing_bytes_ignored(case):
    img = M.from_case(case[0])
    raw = M.encode(img)
    with open('x.bmp', 'wb') as f:
        f.write(raw + bytes.fromhex(case[1]))
    same(bytes(b.loadBMP('x.bmp')), raw, 'bitmap loaded from a file with trailing bytes')
    return True


@P.part(st.one_of(st.none(), M.hexes(0, 80)), quick=200,
        rule='file that is missing, or whose first bytes are not a BMP signature')
def not_a_bitmap(case):
    """A missing or foreign file never yields a bitmap: nothing or an empty array, and no exception."""
    if os.path.exists('bad.bmp'):
        os.remove('bad.bmp')
    if case is not None:
        data = bytes.fromhex(case)
        if data[:2] == b'BM':
            data = b'MB' + data[2:]
        with open('bad.bmp', 'wb') as f:
            f.write(data)
    r, _ = quiet(b.loadBMP, 'bad.bmp')
    need(r is None or len(r) == 0, 'loading a non-bitmap returned %s bytes', None if r is None else len(r))
    return True


@st.composite
def largecase(draw):
    bits = draw(st.sampled_from(M.BITS))
    kind = draw(st.sampled_from(['wide', 'tall', 'both', 'both', 'huge']))
    long_ = st.integers(1, 9).flatmap(lambda k: st.integers(256 * k, 20000 if k > 7 else 700 * k))
    short_ = st.integers(1, 6)
    if kind == 'huge':
        w = draw(st.integers(3700, 4800))
        h = (1 << 27) // bits // w + draw(st.integers(1, 300))
    else:
        w, h = draw(long_ if kind != 'tall' else short_), draw(long_ if kind == 'tall' else st.integers(200, 900) if kind == 'both' else short_)
    return {'w': w, 'h': h, 'bits': bits, 'd': draw(M.hexes(1, 24)), 'x': draw(st.integers(0, w - 1)), 'y': draw(st.integers(0, h - 1))}


@P.part(largecase(), quick=36, rule='a file of more than 64 KB')
def large_bitmap(case):
    """Files of any length come back whole: the last bytes of the file and of memory are those written."""
    w, h, bits = case['w'], case['h'], case['bits']
    rb, off = M.rowbytes(w, bits), M.HDR[bits]
    bmp = b.newBMP(w, h, bits)
    size = off + rb * h
    d = bytes.fromhex(case['d'])
    for k in range(0, size - off, max(1, (size - off) // 997)):       # spread over the pixels, always up to the last rows
        bmp[off + k] = d[k % len(d)] if bits != 24 and k % rb < w * bits // 8 or bits == 24 and k % rb < w * 3 else 0
    b.plotxybit(bmp, case['x'], case['y'], 1)
    for x, y in ((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)):
        b.plotxybit(bmp, x, y, (1 << bits) - 1)
    keep = bytes(bmp)
    same(len(keep), size, f'bytes of a {w}x{h} {bits}-bit bitmap')
    b.saveBMP('l.bmp', bmp)
    raw = open('l.bmp', 'rb').read()
    same(len(raw), size, f'length of the file of a {w}x{h} {bits}-bit bitmap')
    same(struct.unpack_from('<I', raw, 2)[0], size, 'size field')
    same(struct.unpack_from('<ii', raw, 18), (w, h), 'dimensions in the file')
    need(raw == keep, 'the file of a %sx%s %s-bit bitmap differs from the bitmap', w, h, bits)
    back = b.loadBMP('l.bmp')
    same(len(back), size, f'length of a {w}x{h} {bits}-bit bitmap loaded')
    need(bytes(back) == keep, 'a %sx%s %s-bit bitmap differs when loaded', w, h, bits)
    for x, y in ((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)):
        same(b.getxybit(back, x, y), (1 << bits) - 1, f'pixel ({x},{y}) of a loaded {w}x{h} {bits}-bit bitmap')
    os.remove('l.bmp')
    return size > 65536
