"""C22 packing helpers: integers in byte buffers, bit and nibble packing, splitting, enlarging and reversing rows."""
from array import array
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same
from pythonbmp import inttools as I, bufresize as R, buffersplit as B, bufferflip as F, mathlib as ml, primitives2D, conditionaltools, dicttools, chartools

P = Prop('C22', ['known finding KF2: rotatebits may drop the lowest bit of an odd byte'])
bytess = M.rare(st.lists(st.integers(0, 255), min_size=1, max_size=24), st.tuples(st.lists(st.integers(0, 255), min_size=1, max_size=24), st.integers(2, 30)).map(lambda c: c[0] * c[1]), 20)


@P.part(st.tuples(M.rare(st.integers(1, 8), st.integers(9, 24), 6), st.integers(0, 6), st.integers(0, 2 ** 192 - 1), bytess).map(list), quick=1500, rule='the value needs every byte')
def integers(case):
    """A little-endian integer of n bytes written to a buffer is read back and touches only its bytes."""
    n, off, v, bg = case
    v &= (1 << 8 * n) - 1
    want = [(v >> 8 * i) & 255 for i in range(n)]
    same(list(I.int2buf(n, v)), want, f'int2buf({n},{v})')
    same(I.buf2int(array('B', want)), v, f'buf2int of {want}')
    bg = (bg * 34)[:off + n + 3]
    buf = array('B', bg)
    I.writeint(off, n, buf, v)
    same(list(buf), bg[:off] + want + bg[off + n:], f'buffer after writeint({off},{n},{v})')
    same(I.readint(off, n, buf), v, f'readint({off},{n})')
    return v >> 8 * (n - 1) > 0


def bits_of(v):
    return [v >> k & 1 for k in range(7, -1, -1)]


def frombits(l):
    return [sum(b << 7 - i for i, b in enumerate(l[k:k + 8])) for k in range(0, len(l), 8)]


@P.part(st.tuples(bytess, M.rare(st.integers(1, 9), st.integers(10, 90), 20)).map(list), quick=1500, rule='two bytes or more, factor two or more')
def enlarging(case):
    """Bits, nibbles, bytes and pixels repeated n times each stay in order; unpacking undoes packing."""
    buf, n = case
    for v in buf:
        same(list(ml.enumbits(v)), bits_of(v), f'bits of {v}')
        same(list(R.resizebitpattenNtimesbigger(v, n)), [k for k in bits_of(v) for _ in range(n)], f'bits of {v} {n} times')
    bits = [k for v in buf for k in bits_of(v)]
    same(list(R.packbitlisttobuf(bits)), buf, f'packed bits of {buf}')
    big = [k for k in bits for _ in range(n)]
    same(list(R.resize1bitbufNtimesbigger(array('B', buf), n)), frombits(big), f'1-bit row {buf} enlarged {n} times')
    nib = [k for v in buf for k in (v >> 4, v & 15)]
    same(list(R.unpack4bitbuf(buf)), nib, f'nibbles of {buf}')
    same(list(R.pack4bitbuf(nib)), buf, f'packed nibbles of {buf}')
    bign = [k for k in nib for _ in range(n)]
    same(list(R.unpack4bitbufresizeNtimesbigger(buf, n)), bign, f'nibbles of {buf} {n} times')
    same(list(R.resize4bitbufNtimesbigger(array('B', buf), n)), [bign[i] << 4 | bign[i + 1] for i in range(0, len(bign), 2)], f'4-bit row {buf} enlarged {n} times')
    same(list(R.resize8bitbufNtimesbigger(array('B', buf), n)), [k for k in buf for _ in range(n)], f'8-bit row {buf} enlarged {n} times')
    px = [buf[i:i + 3] for i in range(0, len(buf) // 3 * 3, 3)]
    flat = [k for p in px for k in p]
    bigp = [k for p in px for _ in range(n) for k in p]
    if px:
        same(list(R.resize24bitbufNtimesbigger(array('B', flat), n)), bigp, f'24-bit row {px} enlarged {n} times')
        same(list(R.resizebufNtimesbigger(array('B', flat), n, 24)), bigp, f'24-bit row {px} enlarged {n} times')
    same(list(R.resizebufNtimesbigger(array('B', buf), n, 1)), frombits(big), f'1-bit row {buf} enlarged {n} times')
    same(list(R.resizebufNtimesbigger(array('B', buf), n, 4)), [bign[i] << 4 | bign[i + 1] for i in range(0, len(bign), 2)], f'4-bit row {buf} enlarged {n} times')
    same(list(R.resizebufNtimesbigger(array('B', buf), n, 8)), [k for k in buf for _ in range(n)], f'8-bit row {buf} enlarged {n} times')
    return len(buf) > 1 and n > 1


@P.part(st.tuples(bytess, M.rare(st.integers(1, 8), st.integers(9, 24), 12), M.rare(st.integers(1, 6), st.integers(7, 90), 12)).map(list), quick=1200, rule='more than one group')
def splitting(case):
    """Splitting a row in n takes every nth item, and rows of pixels shrink to the mean of each n by n block."""
    d, n, groups = case
    row = [M.content(bytes(d), i) for i in range(n * groups)]
    same([list(v) for v in B.altsplitbufnway(row, n)], [row[i::n] for i in range(n)], f'{row} split {n} ways')
    r3 = [M.content(bytes(d), i) for i in range(3 * groups)]
    for w in (r3, array('B', r3)):
        same([list(v) for v in B.altsplitbuf3way(w)], [r3[i::3] for i in range(3)], f'{r3} split 3 ways')
    r2 = [M.content(bytes(d), i) for i in range(2 * groups)]
    same([list(v) for v in B.altsplitbuf(r2)], [r2[i::2] for i in range(2)], f'{r2} split in two')
    rows = [[M.content(bytes(d), k + 97 * j) for k in range(3 * n * groups)] for j in range(n)]
    got = list(R.resizesmaller24bitbuf([array('B', v) for v in rows]))
    same(len(got), 3 * groups, 'length of the shrunk row')
    for g in range(groups):
        for ch in range(3):
            m = sum(rows[j][3 * (g * n + i) + ch] for j in range(n) for i in range(n)) / n / n
            need(abs(got[3 * g + ch] - m) <= .5001, 'pixel %s channel %s shrunk %s times is %s, the mean is %s: %s', g, ch, n, got[3 * g + ch], m, rows)
    return groups > 1 and n > 1


@P.part(bytess, quick=1500, rule='two bytes or more')
def reversing(buf):
    """Reversing a row reverses its pixels at every depth, and doing it twice restores it."""
    rev = buf[::-1]
    rb = [int(f'{v:08b}'[::-1], 2) for v in rev]
    same(list(F.flipbuf(array('B', buf), 8)), rev, f'8-bit {buf} reversed')
    same(list(F.flipbuf(array('B', buf), 4)), [v >> 4 | (v & 15) << 4 for v in rev], f'4-bit {buf} reversed')
    same(list(F.flipbuf(array('B', buf), 1)), rb, f'1-bit {buf} reversed')
    same(list(F.rotatebitsinbuf(array('B', rev))), rb, f'bits of {rev} reversed')
    same(list(F.flipnibbleinbuf(array('B', buf))), [v >> 4 | (v & 15) << 4 for v in buf], f'nibbles of {buf} swapped')
    for v in buf:
        w = int(f'{v:08b}'[::-1], 2)
        need(ml.rotatebits(v) in (w, w & 127), 'rotatebits(%s) is %s', v, ml.rotatebits(v))
    px = [buf[i:i + 3] for i in range(0, len(buf) // 3 * 3, 3)]
    flat = [k for p in px for k in p]
    want = [k for p in px[::-1] for k in p]
    same(list(F.flipbuf(array('B', flat), 24)), want, f'24-bit {px} reversed')
    same(list(F.flip24bitbuf(array('B', flat))), want, f'24-bit {px} reversed')
    return len(buf) > 1


@P.part(st.just([255]), quick=0, rule='known finding only')
def kf2_rotatebits(case):
    same(ml.rotatebits(case[0]), int(f'{case[0]:08b}'[::-1], 2), f'rotatebits({case[0]})')


@P.part(st.tuples(st.integers(0, 300), st.integers(0, 300), st.sampled_from(M.BITS)).map(list), quick=600, rule='a packed depth')
def sizes(case):
    """The bytes a run of pixels takes, also one that starts or ends inside a byte."""
    a, z, bits = case
    a, z = min(a, z), max(a, z)
    n = z - a + 1
    same(R.adjustbufsize(n, bits), -(-n * bits // 8), f'bytes of {n} pixels at {bits} bits')
    bmp = array('B', [0] * 54)
    bmp[28] = bits
    same(R.adjustxbufsize(bmp, a, z), len({x * bits // 8 + k for x in range(a, z + 1) for k in range(max(1, bits // 8))}), f'bytes of pixels {a}..{z} at {bits} bits')
    return bits < 8


vals = st.integers(-9, 9) | st.sampled_from(['a', 'b', 2.5])


@P.part(st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.booleans(), st.dictionaries(st.text('abcdef', min_size=1, max_size=3), st.integers(0, 9), max_size=8),
                  st.text(st.characters(max_codepoint=255), max_size=40)).map(list), quick=600, rule='the table has two entries or more')
def small_tools(case):
    """Conditional choice and exchange, descending tables, letters and hashes of strings."""
    u, v, c, d, s = case
    same(conditionaltools.iif(c, u, v), u if c else v, 'iif')
    same(tuple(conditionaltools.swapif(u, v, c)), (v, u) if c else (u, v), 'swapif')
    got = dicttools.dict2descorderlist(d)
    same(sorted(map(tuple, got)), sorted((n, k) for k, n in d.items()), 'entries of the descending table')
    same([g[0] for g in got], sorted(d.values(), reverse=True), 'order of the descending table')
    same(list(chartools.enumletters(s)), list(s), f'letters of {s!r}')
    same(list(chartools.enumreverseletters(s)), list(s[::-1]), f'letters of {s!r} reversed')
    same(chartools.char2int(s), sum(ord(k) << 8 * i for i, k in enumerate(s)), f'char2int({s!r})')
    return len(d) > 1
