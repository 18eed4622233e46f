"""C16 text and 8-bit patterns."""
import io, os, tempfile
from contextlib import redirect_stdout
from hypothesis import strategies as st
from .. import model as M
from .. import shapes as S
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
from pythonbmp import fonts, textgraphics as T

P = Prop('C16', ['a square cell partly outside the bitmap may be left out or clipped', 'a cell less than two pixels wide is a single pixel',
                 'where a slanted pattern of scale 1 moves by a pixel is fixed by the parity of its row, as the pinned files show',
                 'known findings KF1 (last pixel of 4-bit runs) and KF2 (mirrored patterns lose the bit 0 column) are allowed for'])
FONTS = ['font8x8', 'font8x8thin', 'font8x14', 'font8x14thin', 'font8x8sanserif', 'font8x14sanserif']


def slant(k, x0, h, scale, y):
    """Column of row k (drawn at y + k*scale) of a slanted pattern that starts at x0, and how far left it has moved."""
    if scale > 1:
        return -k * (scale >> 1)
    return -sum(1 for j in range(1, k + 1) if (y + j) % 2 == 0)


def cells(kind, x, y, pat, scale):
    """(x, y, row, bit0?) of every set bit."""
    h = len(pat)
    lean = (scale >> 1) * h if scale > 1 else h >> 1
    out = []
    for k in range(h):
        src = pat[h - 1 - k] if 'upside' in kind else pat[k]
        for j in range(8):
            if not src >> (7 - j) & 1:
                continue
            col = 7 - j if 'mirror' in kind else j
            if 'side' in kind and 'upside' not in kind:
                px, py = x + k * scale, y - j * scale
                if 'italic' in kind:
                    py += k * (scale >> 1) if scale > 1 else sum(1 for i in range(1, k + 1) if (x + i) % 2 == 0)
            else:
                px, py = x + col * scale, y + k * scale
                if 'italic' in kind:
                    px += slant(k, x, h, scale, y) + (0 if 'upside' in kind else lean)
            out.append((px, py, k, j == 7 and 'mirror' in kind))
    return out


def draw(img, cs, scale, space, dots, colours):
    """Layers (must, may, colour) of the cells."""
    n = scale - space
    for px, py, k, opt in cs:
        c = colours[k % len(colours)]
        if scale == 1 or n <= 1:
            must, may = S.clip({(px, py)}, img), set()
        elif dots:
            d = (n - 1) >> 1
            must, may = S.runs(img, S.disc_runs(px + d, py + d, d))
        else:
            must, may = S.runs(img, [(py + i, px, px + n - 1) for i in range(n)])
            if not (img.inside(px, py) and img.inside(px + n - 1, py + n - 1)):
                must, may = set(), must | may
        if opt:
            must, may = set(), must | may
        yield must, may, c


def compare(bmp, img, layers, what):
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (img.w, img.h, img.bits), '%s: geometry changed', what)
    need(img.bits == 24 or got.pal == img.pal, '%s: palette changed', what)
    allowed = {}
    for must, may, c in layers:
        c = M.mask(c, img.bits)
        for p in must:
            allowed[p] = {c}
        for p in may:
            allowed[p] = allowed.get(p, {img.px[p[1]][p[0]]}) | {c}
    bad = []
    for y in range(img.h):
        for x in range(img.w):
            ok = allowed.get((x, y), {img.px[y][x]})
            if got.px[y][x] not in ok:
                bad.append(f'({x},{y}) is {got.px[y][x]:#x}, expected {" or ".join(hex(v) for v in ok)}')
    need(not bad, '%s: %s wrong pixels: %s', what, len(bad), '; '.join(bad[:4]))
    return len(allowed)


PATS = {('plain', 0): b.plot8bitpattern, ('plain', 1): b.plot8bitpatternasdots,
        ('italic', 0): b.plotitalic8bitpattern, ('italic', 1): b.plotitalic8bitpatternasdots,
        ('upside', 0): b.plot8bitpatternupsidedown, ('upside', 1): b.plot8bitpatternupsidedownasdots,
        ('upside italic', 0): b.plotupsidedownitalic8bitpattern, ('upside italic', 1): b.plotupsidedownitalic8bitpatternasdots,
        ('upside italic', 2): b.plotitalic8bitpatternupdsidedownasdots,
        ('mirror', 0): b.plotrotated8bitpattern, ('mirror', 1): b.plotrotated8bitpatternasdots,
        ('mirror italic', 0): b.plotreverseditalic8bitpattern, ('mirror italic', 1): b.plotreverseditalic8bitpatternasdots,
        ('side', 0): b.plot8bitpatternsideway, ('side', 1): b.plot8bitpatternsidewaywithdots,
        ('side italic', 0): b.plotitalic8bitpatternsideway, ('side italic', 1): b.plotitalic8bitpatternsidewayasdots}


@st.composite
def patterns(draw, kind, dots):
    img = {'w': draw(M.size(1, 60)), 'h': draw(M.size(1, 60)), 'bits': draw(st.sampled_from(M.BITS)), 'd': draw(M.hexes(1, 8))}
    scale = draw(M.size(1, 6, 20))
    return {'img': img, 'kind': kind, 'dots': dots, 'x': draw(M.coord(img['w'], 10)), 'y': draw(M.coord(img['h'], 10)),
            'pat': draw(st.lists(st.integers(0, 255), min_size=1, max_size=draw(st.sampled_from([9, 9, 16])))), 'scale': scale, 'space': draw(M.rare(st.integers(0, 2), st.integers(0, scale), 6)),
            'c': draw(st.lists(M.color(img['bits']), min_size=1, max_size=draw(st.sampled_from([4, 4, 12])))), 'tuple': draw(st.booleans())}


@P.part([patterns(*k) for k in sorted(PATS)], quick=2500, rule='at least one cell lies in the bitmap')
def eight_bit_patterns(case):
    """Every set bit of a pattern is a cell at its place (upright, slanted, mirrored, upside down or sideways); nothing else changes."""
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    kind, dots, c = case['kind'], case['dots'], case['c']
    many = len(c) > 1 and kind != 'mirror'
    if not many:
        c = c[:1]
    quiet(PATS[kind, dots], bmp, case['x'], case['y'], list(case['pat']), case['scale'], case['space'], (tuple if case['tuple'] else list)(c) if many else c[0])
    cs = cells(kind, case['x'], case['y'], case['pat'], case['scale'])
    return compare(bmp, img, draw_(img, cs, case, dots, c), f'{PATS[kind, dots].__name__} {case["pat"]} at {(case["x"], case["y"])} scale {case["scale"]} '
                   f'space {case["space"]} colours {c} on {img.w}x{img.h} {img.bits}-bit') > 0


def draw_(img, cs, case, dots, c):
    return list(draw(img, cs, case['scale'], case['space'], dots, c))


# (function on a bitmap, function to a file, layout, order, kind, dots)
STR = [(b.plotstring, b.plotstring2file, 'h', 1, 'plain', 0), (b.plotstringasdots, b.plotstringasdots2file, 'h', 1, 'plain', 1),
       (b.plotitalicstring, b.plotitalicstring2file, 'h', 1, 'italic', 0), (b.plotitalicstringasdots, b.plotitalicstringasdots2file, 'h', 1, 'italic', 1),
       (b.plotreversestring, b.plotreversedstring2file, 'h', -1, 'mirror', 0), (b.plotreversestringasdots, b.plotreversedstringasdots2file, 'h', -1, 'mirror', 1),
       (b.plotreverseditalicstring, b.plotreverseditalicstring2file, 'h', -1, 'mirror italic', 0), (b.plotreverseditalicstringasdots, None, 'h', -1, 'mirror italic', 1),
       (b.plotstringupsidedown, b.plotupsidedownstring2file, 'h', -1, 'upside', 0), (b.plotstringupsidedownasdots, b.plotupsidedownstringasdots2file, 'h', -1, 'upside', 1),
       (b.plotupsidedownitalicstring, None, 'h', -1, 'upside italic', 0), (b.plotupsidedownitalicstringasdots, None, 'h', -1, 'upside italic', 1),
       (b.plotstringsideway, None, 's', 1, 'side', 0), (b.plotstringsidewayasdots, None, 's', 1, 'side', 1),
       (b.plotitalicstringsideway, None, 's', 1, 'side italic', 0), (b.plotitalicstringsidewayasdots, None, 's', 1, 'side italic', 1),
       (b.plotstringvertical, b.plotverticalstring2file, 'v', 1, 'plain', 0), (b.plotstringverticalasdots, b.plotverticalstringasdots2file, 'v', 1, 'plain', 1),
       (b.plotitalicstringvertical, b.plotverticalitalicstring2file, 'v', 1, 'italic', 0),
       (b.plotitalicstringverticalasdots, b.plotverticalitalicstringasdots2file, 'v', 1, 'italic', 1)]


def place(text, layout, order, x, y, scale, gap, h):
    """(character, x, y) for every character drawn."""
    gap = gap or 1
    xs, ys = 8 * scale + gap, h * scale + gap
    ox, oy = x, y
    for ch in text[::order]:
        if ch == '\n':
            x, y = {'h': (ox, y + ys), 'v': (x + xs, oy), 's': (x + ys, oy)}[layout]
        else:
            n = 4 if ch == '\t' else 1
            if ch != '\t':
                yield ch, x, y
            if layout == 'h':
                x += n * xs
            else:
                y += n * (ys if layout == 'v' else -xs)


letters = st.sampled_from('AgW1~\xb1\xff\x01') | st.characters(max_codepoint=255)
word = M.rare(st.text(letters, min_size=0, max_size=3), st.text(letters, min_size=4, max_size=60), 15)
texts = st.one_of(st.text(st.sampled_from('AgW1~\xb1\xff\x01\n\t') | st.characters(max_codepoint=255), min_size=0, max_size=5),
                  st.tuples(word, st.sampled_from(['\n', '\t', '\n\n', '\n\t']), word).map(''.join))


@st.composite
def strings(draw, k):
    tofile = STR[k][1] is not None and draw(st.integers(0, 2)) == 0
    bits = draw(st.sampled_from(M.BITS))
    font = draw(st.sampled_from(FONTS + ['made']))
    c = {'k': k, 'file': tofile, 'font': font, 'scale': draw(M.size(1, 4, 12)), 'space': draw(st.integers(0, 1)), 'gap': draw(st.integers(0 if tofile else -3, 3)),
         'text': draw(texts),
         'c': draw(M.color(bits)), 'bg': draw(st.sampled_from([0, 0, 1, 5, 255, 0xA0B0C0])), 'bits': bits}
    if font == 'made':
        h = draw(st.integers(1, 9))
        c['made'] = [h, draw(M.hexes(1, 20))]
    if not tofile:
        c['img'] = {'w': draw(st.integers(1, 90) | st.integers(60, 90)), 'h': draw(st.integers(1, 70) | st.integers(40, 80)), 'bits': bits, 'd': draw(M.hexes(1, 8))}
        c['x'], c['y'] = draw(M.coord(c['img']['w'], 10)), draw(M.coord(c['img']['h'], 10))
    return c


def glyph(font, ch):
    h = font[0]
    return [font[1 + ord(ch) * h + i] for i in range(h)]


@P.part([strings(k) for k in range(len(STR))], quick=2200, rule='at least one character with a pixel is drawn')
def strings_of_text(case):
    """A string is its characters' patterns in order, each at its place, line by line; a text file's bitmap has room for all of them."""
    fn, tofile, layout, order, kind, dots = STR[case['k']]
    if case['font'] == 'made':
        h, d = case['made']
        d = bytes.fromhex(d)
        font = [h] + [M.content(d, i) for i in range(256 * h)]
    else:
        font = getattr(fonts, case['font'])
    scale, space, gap, text, c = case['scale'], case['space'], case['gap'], case['text'], case['c']
    h = font[0]
    if case['file']:
        f = tempfile.mktemp(suffix='.bmp', dir='.')
        quiet(tofile, f, text, scale, space, gap, c, font, case['bg'], case['bits'])
        bmp = b.loadBMP(f)
        os.remove(f)
        got = M.parse(bmp)
        lines = text.replace('\t', '    ').split('\n')
        cols, rows = max(map(len, lines)), len(lines)
        if layout == 'v':
            cols, rows = rows, cols
        g = gap or 1
        lean = ((h * (scale >> 1) if scale > 1 else h >> 1) if 'italic' in kind else 0)
        same((got.w, got.h, got.bits), (cols * (8 * scale + g) + 2 * scale + lean, rows * (h * scale + g) + 2 * scale, case['bits']),
             f'size of {tofile.__name__} {text!r} {case["font"]} scale {scale} gap {gap}')
        img = M.Img(got.w, got.h, got.bits, pal=M.defaultpal(got.bits) if got.bits < 24 else None)
        x = y = scale
        base = [({(i, j) for i in range(img.w) for j in range(img.h)}, set(), case['bg'])] if case['bg'] else []
        if base and img.bits == 4:
            must, may = S.runs(img, [(j, 0, img.w - 1) for j in range(img.h)])
            base = [(must, may, case['bg'])]
        what = tofile.__name__
    else:
        img = M.from_case(case['img'])
        bmp = M.to_bmp(img)
        x, y = case['x'], case['y']
        quiet(fn, bmp, x, y, text, scale, space, gap, c, font)
        base = []
        what = fn.__name__
    n = 0
    layers = base
    for ch, px, py in place(text, layout, order, x, y, scale, gap, h):
        cs = cells(kind, px, py, glyph(font, ch), scale)
        n += len(cs)
        layers += draw(img, cs, scale, space, dots, [c])
    compare(bmp, img, layers, f'{what} {text!r} {case["font"]} at {(x, y)} scale {scale} space {space} gap {gap} colour {c} on {img.w}x{img.h} {img.bits}-bit')
    return n > 0


@P.part(st.tuples(st.sampled_from(FONTS), st.integers(0, 255), st.text(st.sampled_from('ab\n\t c'), max_size=90)).map(list), quick=600, rule='the text has two lines or more')
def fonts_and_layout(case):
    """A character's pattern is its slice of the font, and text measures are its longest line and number of lines."""
    name, ch, text = case
    f = getattr(fonts, name)
    h = f[0]
    need(h == int(name.split('x')[1].rstrip('thinsaerf')) and len(f) == 1 + 256 * h, 'font %s: height %s, %s values', name, h, len(f))
    same(list(fonts.getcharfont(f, chr(ch))), glyph(f, chr(ch)), f'character {ch} of {name}')
    same(list(fonts.itergetcharfromfontbuf(f, chr(ch))), glyph(f, chr(ch)), f'character {ch} of {name}')
    lines = text.replace('\t', '    ').split('\n')
    same(list(T.computetextrowandcolcnt(text)), [max(map(len, lines)), len(lines)], f'measures of {text!r}')
    return len(lines) > 1


@P.part(st.tuples(st.lists(st.integers(0, 255), max_size=40), st.integers(0, 255)).map(list), quick=400, rule='two rows or more')
def patterns_as_text(case):
    """A pattern shown as text has a line of eight marks per byte."""
    pat, v = case
    same(T.plot8bitpatternastext(pat, '#', '.'), ''.join(f'{k:08b}'.replace('1', '#').replace('0', '.') + '\n' for k in pat), f'{pat} as text')
    _, out = quiet(T.plotbitsastext, v)
    same(out, f'{v:08b}'.replace('1', '*').replace('0', ' '), f'{v} as text')
    return len(pat) > 1


@P.part(M.images(bits=(1, 4, 8), maxw=40, maxh=10), quick=500, rule='two rows or more')
def bitmap_as_text(case):
    """Every row of a bitmap is a line, top row first, with a mark per pixel."""
    img = M.from_case(case)
    _, out = quiet(b.plotbmpastext, M.to_bmp(img))
    n = {1: 8, 4: 2, 8: 1}[img.bits] * M.rowbytes(img.w, img.bits)
    what = f'{img.w}x{img.h} {img.bits}-bit bitmap as text'
    need(out.count('\n') >= img.h, '%s: %s lines', what, out.count('\n'))
    pos = 0
    for y in range(img.h):
        want = ''.join({1: ' *'[v & 1], 4: chr(97 + v % 16), 8: chr(v)}[img.bits] for v in img.px[y])
        line = out[pos:pos + img.w]
        same(line, want, f'{what}: row {y}')
        # the padding of the row may be shown after it
        end = pos + n if out[pos + n:pos + n + 1] == '\n' else pos + img.w
        same(out[end:end + 1], '\n', f'{what}: end of row {y}')
        pos = end + 1
    return img.h > 1
