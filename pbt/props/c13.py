"""C13 flips, mirrors and copies of circular areas."""
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, quiet, same
from .c11 import anycirc
import pythonbmp.BITMAPlib as b

P = Prop('C13', ['the last pixel of each row of a circular area may be moved or not, as may, in sideways transforms, the pixels of a column beyond the least height the circle has there',
                 'exchanging x and y shows the content a quarter turn on at 8 and 24 bits and transposed at 1 and 4 bits, as the pinned images do'])

# where the pixel at offset (i, j) from the centre comes from
REF = {'F_V': (b.flipvertcircregion, lambda i, j: (i, -j)),
       'F_H': (b.fliphoricircregion, lambda i, j: (-i, j)),
       'M_T': (b.mirrortopincircregion, lambda i, j: (i, -abs(j))),
       'M_B': (b.mirrorbottomincircregion, lambda i, j: (i, abs(j))),
       'M_L': (b.mirrorleftincircregion, lambda i, j: (-abs(i), j)),
       'M_R': (b.mirrorrightincircregion, lambda i, j: (abs(i), j)),
       'M_TL': (b.mirrortopleftincircregion, lambda i, j: (-abs(i), -abs(j))),
       'M_TR': (b.mirrortoprightincircregion, lambda i, j: (abs(i), -abs(j))),
       'M_BL': (b.mirrorbottomleftincircregion, lambda i, j: (-abs(i), abs(j))),
       'M_BR': (b.mirrorbottomrightincircregion, lambda i, j: (abs(i), abs(j))),
       'XY': (b.flipXYcircregion, None)}


@st.composite
def trans(draw, op):
    bits = M.BITS if op in ('F_V', 'M_T', 'M_B', 'XY') else (8, 24) * 8 + (1, 4)
    c = draw(anycirc(bits))
    c['op'] = op
    return c


def fits(img, x, y, r):
    return img.inside(x - r, y - r) and img.inside(x + r, y + r)


@P.part([trans(op) for op in sorted(REF)], quick=3500, rule='the circle lies inside and at least four pixels are in it')
def transforms(case):
    """Every pixel of the circle comes from its reflected place; pixels outside the circle stay; a circle that leaves the bitmap is refused."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    op, x, y, r = case['op'], case['x'], case['y'], case['r']
    f, ref = REF[op]
    what = f'{op} of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit'
    _, out = quiet(f, bmp, x, y, r)
    if img.bits < 8 and op not in ('F_V', 'M_T', 'M_B', 'XY'):
        need('24' in out, '%s: no message', what)
        M.expect(bmp, img, what + ' (refused)')
        return False
    if not fits(img, x, y, r):
        M.expect(bmp, img, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    if ref is None:
        ref = (lambda i, j: (j, -i)) if img.bits >= 8 else (lambda i, j: (j, i))
    core, rim = S.disc_parts(img, x, y, r, 'col' if op in ('F_H', 'M_L', 'M_R') else 'row')
    if len(op) == 4:        # both directions: what one of them may leave out
        c2, r2 = S.disc_parts(img, x, y, r, 'col')
        core, rim = core & c2, rim | (core ^ c2) | r2

    def ok(i, j, v):
        u, w = ref(i - x, j - y)
        if v == img.px[y + w][x + u]:
            return True
        # a combined mirror may treat a rim pixel in only one of its two directions
        return (i, j) in rim and len(op) == 4 and any(
            v == img.px[y + q][x + p] for p, q in ((i - x, w), (u, j - y)))
    S.treated(bmp, img, core, rim, ok, what)
    return len(core) > 3


@st.composite
def copies(draw):
    bits = draw(st.sampled_from(M.BITS))
    a = draw(anycirc((bits,)))
    t = draw(st.sampled_from(['self', 'self', 'other', 'other', 'depth']))
    if t == 'self':
        w, h = a['img']['w'], a['img']['h']
        tgt = None
    else:
        tgt = draw(M.images(bits=(bits,) if t == 'other' else tuple(q for q in M.BITS if q != bits), maxw=30, maxh=24, big=False))
        if draw(st.booleans()):
            tgt['w'], tgt['h'] = max(tgt['w'], 2 * a['r'] + 1), max(tgt['h'], 2 * a['r'] + 1)
        w, h = tgt['w'], tgt['h']
    r = a['r']
    lo = lambda n: st.one_of(st.integers(min(r, n), max(n - 1 - r, min(r, n))), st.sampled_from([r, n - 1 - r, r - 1, n - r]))
    a.update(tgt=tgt, to=[draw(lo(w)), draw(lo(h))])
    return a


@P.part(copies(), quick=2500, rule='the circle is copied and at least four pixels are in it')
def copy_and_paste(case):
    """A copied circle shows the same pixels round the new centre; what does not fit or has another depth is refused."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    x, y, r = case['x'], case['y'], case['r']
    p, q = case['to']
    what = f'copy of circle ({x},{y}) r={r} in {img.w}x{img.h} {img.bits}-bit to ({p},{q})'
    if case['tgt'] is None:
        dst, dbmp = img, bmp
        _, out = quiet(b.copycircregion, bmp, x, y, r, [p, q])
    else:
        dst = M.from_case(case['tgt'])
        dbmp = M.to_bmp(dst)
        what += f' of another {dst.w}x{dst.h} {dst.bits}-bit bitmap'
        buf, out = quiet(b.copycircregion2buf, bmp, x, y, r)
        M.expect(bmp, img, what + ' (source)')
        out += quiet(b.pastecirularbuf, dbmp, p, q, buf)[1]
    if not fits(img, x, y, r) or not fits(dst, p, q, r):
        M.expect(dbmp, dst, what + ' (out of bounds)')
        need('out of bounds' in out, '%s: no message', what)
        return False
    if img.bits != dst.bits:
        M.expect(dbmp, dst, what + ' (other depth)')
        need('bits' in out, '%s: no message', what)
        return False
    core, rim = S.disc_parts(dst, p, q, r)
    S.treated(dbmp, dst, core, rim, lambda i, j, v: v == img.px[j - q + y][i - p + x], what)
    return len(core) > 3


CALLS = {k: v[0] for k, v in REF.items()}


@P.part(st.tuples(st.sampled_from(sorted(CALLS)), M.images(bits=(8, 24), maxw=30, maxh=24, minw=9, minh=9, big=False),
                  st.integers(0, 2), st.sampled_from([0.5, 4.0, '3', None, 2.0])).map(list), quick=150, rule='always')
def non_integers(case):
    """A centre or radius that is not an int is refused with a message."""
    op, ic, k, bad = case
    img = M.from_case(ic)
    bmp = M.to_bmp(img)
    a = [4, 4, 2]
    a[k] = bad
    _, out = quiet(CALLS[op], bmp, *a)
    M.expect(bmp, img, f'{op} with {a}')
    need('int' in out, '%s with %s: no message', op, a)
    return True
