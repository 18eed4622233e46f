"""Geometric reference sets and painting oracles, independent of the library's rasterisers."""
import math
from . import model as M
from .core import need, Violation, short


def octant(r):
    """Midpoint circle: for each dx in the octant the nearest dy (never a tie on integers)."""
    out = set()
    dx = 0
    while True:
        n = r * r - dx * dx
        if n < 0:
            break
        dy = math.isqrt(n)
        if n - dy * dy > dy:        # sqrt(n) > dy + 1/2
            dy += 1
        if dx > dy:
            break
        out.add((dx, dy))
        dx += 1
    return out


def quadrant(r):
    o = octant(r)
    return o | {(b, a) for a, b in o}


def ring(cx, cy, r):
    return {(cx + sx * a, cy + sy * b) for a, b in quadrant(r) for sx in (1, -1) for sy in (1, -1)}


def halfwidths(r):
    hw = {}
    for a, b in quadrant(r):
        hw[b] = max(hw.get(b, 0), a)
    return hw


def disc_runs(cx, cy, r):
    """Rows of a filled circle: (y, x1, x2)."""
    out = []
    for dy, w in halfwidths(r).items():
        out.append((cy + dy, cx - w, cx + w))
        if dy:
            out.append((cy - dy, cx - w, cx + w))
    return out


def disc(cx, cy, r):
    return {(x, y) for y, a, b in disc_runs(cx, cy, r) for x in range(a, b + 1)}


def clip(pts, img):
    return {p for p in pts if img.inside(*p)}


def runs(img, rows):
    """Pixels of horizontal runs (y, x1, x2) clipped to img -> (must, may).

    May holds the last pixel of 4-bit runs affected by known finding KF1: 4-bit horizontal runs of
    two or more pixels leave their last pixel undrawn unless they start even and end odd."""
    must, may = set(), set()
    for y, a, b in rows:
        if a > b:
            a, b = b, a
        a, b = max(a, 0), min(b, img.w - 1)
        if not 0 <= y < img.h or a > b:
            continue
        pts = {(x, y) for x in range(a, b + 1)}
        if img.bits == 4 and b > a and not (a % 2 == 0 and b % 2 == 1):
            pts.discard((b, y))
            may.add((b, y))
        must |= pts
    return must, may - must


def painted(bmp, before, must, may, c, what):
    """bmp equals `before` except that `must` has colour c, and `may` has colour c or its old value."""
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (before.w, before.h, before.bits), '%s: geometry changed', what)
    c = M.mask(c, got.bits)
    bad = []
    for y in range(got.h):
        g, o = got.px[y], before.px[y]
        for x in range(got.w):
            if (x, y) in must:
                if g[x] != c:
                    bad.append(f'({x},{y}) is {g[x]:#x}, should have been painted {c:#x}')
            elif g[x] != o[x]:
                if not ((x, y) in may and g[x] == c):
                    bad.append(f'({x},{y}) changed from {o[x]:#x} to {g[x]:#x}, should be untouched' if (x, y) not in may
                               else f'({x},{y}) is {g[x]:#x}, neither old nor {c:#x}')
    if bad:
        raise Violation(f'{what}: {len(bad)} wrong pixels: ' + '; '.join(bad[:5]))
    if got.bits < 24 and got.pal != before.pal:
        raise Violation(f'{what}: palette changed')
    return got


def inked(bmp, before, c, what):
    """Set of pixels with colour c after drawing c on an image that did not contain it; others must be unchanged."""
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (before.w, before.h, before.bits), '%s: geometry changed', what)
    c = M.mask(c, got.bits)
    s = set()
    for y in range(got.h):
        for x in range(got.w):
            if got.px[y][x] == c:
                s.add((x, y))
            elif got.px[y][x] != before.px[y][x]:
                raise Violation(f'{what}: ({x},{y}) became {got.px[y][x]:#x}, not the color {c:#x} drawn')
    if got.bits < 24 and got.pal != before.pal:
        raise Violation(f'{what}: palette changed')
    return s


def check_line(pts, p, q, what, tol=1.0):
    """pts is a valid rasterisation of the segment p-q: one pixel per step along the longer axis, within `tol` of it."""
    (x1, y1), (x2, y2) = p, q
    dx, dy = x2 - x1, y2 - y1
    n = max(abs(dx), abs(dy))
    need(tuple(p) in pts and tuple(q) in pts, '%s: endpoint missing from %s', what, short(sorted(pts)))
    need(len(pts) == n + 1, '%s: %s pixels, expected %s: %s', what, len(pts), n + 1, short(sorted(pts)))
    if n == 0:
        return
    seen = set()
    for x, y in pts:
        if abs(dx) >= abs(dy):
            t = (x - x1) / dx
            err = abs(y1 + t * dy - y)
            k = x
        else:
            t = (y - y1) / dy
            err = abs(x1 + t * dx - x)
            k = y
        need(-1e-9 <= t <= 1 + 1e-9 and err < tol + 1e-9, '%s: pixel (%s,%s) is off the segment by %s', what, x, y, err)
        need(k not in seen, '%s: two pixels at step %s', what, k)
        seen.add(k)


def seg_dist(px, py, a, b):
    (x1, y1), (x2, y2) = a, b
    dx, dy = x2 - x1, y2 - y1
    L = dx * dx + dy * dy
    t = 0 if L == 0 else max(0, min(1, ((px - x1) * dx + (py - y1) * dy) / L))
    return math.hypot(px - x1 - t * dx, py - y1 - t * dy)


def connected(pts):
    """8-connected."""
    pts = set(pts)
    if not pts:
        return True
    st = [next(iter(pts))]
    seen = set(st)
    while st:
        x, y = st.pop()
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                q = (x + i, y + j)
                if q in pts and q not in seen:
                    seen.add(q)
                    st.append(q)
    return len(seen) == len(pts)


def check_ellipse(pts, cx, cy, a, b, what, tol=1.0):
    """pts is a closed, symmetric outline within `tol` of the ellipse with half axes a (x) and b (y)."""
    pts = set(pts)
    for t in ((cx + a, cy), (cx - a, cy), (cx, cy + b), (cx, cy - b)):
        need(t in pts, '%s: tip %s missing', what, t)
    for x, y in pts:
        dx, dy = abs(x - cx), abs(y - cy)
        need(dx <= a and dy <= b, '%s: (%s,%s) lies outside the bounding box', what, x, y)
        for m in ((cx - dx, cy + dy), (cx + dx, cy - dy), (cx - dx, cy - dy), (cx + dx, cy + dy)):
            need(m in pts, '%s: not symmetric at (%s,%s)', what, x, y)
        if a and b:
            ex = abs(dx - a * math.sqrt(max(0, 1 - dy * dy / (b * b))))
            ey = abs(dy - b * math.sqrt(max(0, 1 - dx * dx / (a * a))))
            need(min(ex, ey) < tol, '%s: (%s,%s) is off the ellipse by %.2f', what, x, y, min(ex, ey))
    need(connected(pts), '%s: outline has a gap', what)


def row_fill(outline):
    rows = {}
    for x, y in outline:
        lo, hi = rows.get(y, (x, x))
        rows[y] = (min(lo, x), max(hi, x))
    return [(y, lo, hi) for y, (lo, hi) in rows.items()]


def layered(bmp, before, layers, what, tol=2.001):
    """bmp equals `before` painted over with layers (must, may, rgb) in order; rgb are float channel values."""
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (before.w, before.h, before.bits), '%s: geometry changed', what)
    if got.bits < 24 and got.pal != before.pal:
        raise Violation(f'{what}: palette changed')
    cand = {}
    base = {}
    for must, may, rgb in layers:
        for p in may:
            cand.setdefault(p, []).append(rgb)
        for p in must:
            cand[p] = [rgb]
            base[p] = False
    bad = []
    for y in range(got.h):
        for x in range(got.w):
            v = got.px[y][x]
            c = cand.get((x, y), ())
            if base.get((x, y), True) and v == before.px[y][x]:
                continue
            if not any(M.colour_ok(got, v, rgb, tol) for rgb in c):
                bad.append(f'({x},{y}) is {v:#x}, expected ' + (f'about {[tuple(round(k, 1) for k in rgb) for rgb in c]}' if c else f'{before.px[y][x]:#x} untouched'))
    if bad:
        raise Violation(f'{what}: {len(bad)} wrong pixels: ' + '; '.join(bad[:4]))


def discs(img, pts, r):
    """Pixels of discs of radius r round each of pts, clipped -> (must, may)."""
    must, may = set(), set()
    for x, y in pts:
        if x + r < 0 or y + r < 0 or x - r >= img.w or y - r >= img.h:
            continue
        a, m = runs(img, disc_runs(x, y, r))
        must |= a
        may |= m
    return must, may - must


def circ_parts(img, x, y, r, inner=1):
    """Pixels of the bitmap that belong to the circular area (x, y, r) -> (core, rim).

    The core must be treated, the rim (within a pixel of the circle, where the library's row ends are open) may be."""
    core, rim = set(), set()
    if r < 0:
        return core, rim
    for j in range(max(0, y - r - 1), min(img.h, y + r + 2)):
        for i in range(max(0, x - r - 1), min(img.w, x + r + 2)):
            d = math.hypot(i - x, j - y)
            if d <= r - inner:
                core.add((i, j))
            elif d < r + 1:
                rim.add((i, j))
    return core, rim


def disc_parts(img, x, y, r, kind='row'):
    """Pixels of the bitmap on the library's own disc (x, y, r) -> (core, rim): the core must be treated, the rim may be.

    Row by row the library's ends are open on the right (rim: the last pixel of a row); column by column ('col') it takes,
    for the columns beyond 45 degrees, the least height the circle has there (rim: what the disc has above and below)."""
    core, rim = set(), set()
    if r < 0:
        return core, rim
    if kind == 'row':
        for j, a, e in disc_runs(x, y, r):
            if 0 <= j < img.h:
                core |= {(i, j) for i in range(max(a, 0), min(e, img.w))}
                if 0 <= e < img.w:
                    rim.add((e, j))
        return core, rim
    hw = {}
    for a, c in sorted(octant(r)):
        hw.setdefault(a, c)
        hw.setdefault(c, a)
    for d, c in hw.items():
        for i in {x + d, x - d}:
            if 0 <= i < img.w:
                core |= {(i, j) for j in range(max(y - c, 0), min(y + c + 1, img.h))}
    return core, {p for p in disc(x, y, r) if img.inside(*p)} - core


def treated(bmp, before, core, rim, ok, what):
    """Every core pixel passes ok(x, y, value); a rim pixel does or is unchanged; all others are unchanged."""
    got = M.parse(bmp)
    need((got.w, got.h, got.bits) == (before.w, before.h, before.bits), '%s: geometry changed', what)
    if got.bits < 24 and got.pal != before.pal:
        raise Violation(f'{what}: palette changed')
    bad = []
    for y in range(got.h):
        g, o = got.px[y], before.px[y]
        for x in range(got.w):
            p = (x, y)
            if p in core:
                if not ok(x, y, g[x]):
                    bad.append(f'({x},{y}) inside is {g[x]:#x} (was {o[x]:#x})')
            elif p in rim:
                if g[x] != o[x] and not ok(x, y, g[x]):
                    bad.append(f'({x},{y}) on the rim is {g[x]:#x} (was {o[x]:#x})')
            elif g[x] != o[x]:
                bad.append(f'({x},{y}) outside changed from {o[x]:#x} to {g[x]:#x}')
    if bad:
        raise Violation(f'{what}: {len(bad)} wrong pixels: ' + '; '.join(bad[:4]))
    return got
