"""C24 interpolation, Fourier transform, root finding, histograms."""
import cmath, math
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, close
from pythonbmp import mathlib as m
from .c14 import s3, s5, s7

P = Prop('C24', ['a Fourier transform is asked of 2^k values, as documented', 'the inverse transform is not divided by the number of values',
                 'a histogram is asked of points that spread in both directions and of two bins or more per direction'])
num = st.integers(-60, 60) | st.integers(-4000, 4000).map(lambda v: v / 64) | st.sampled_from([1e-3, -1e-3, 250, -1000, 12345.5])
unit = st.integers(0, 64).map(lambda v: v / 64)


@P.part(st.tuples(num, num, unit, unit).map(list), quick=2500, rule='the ends differ and the fraction is strictly inside')
def interpolation(case):
    """Linear and smoothed interpolation meet both ends, rise monotonically and follow their polynomial; the inverses undo them."""
    a, z, t, t2 = case
    close(m.lerp(a, z, t), a + (z - a) * t, f'lerp({a},{z},{t})', 1e-9, 1e-9)
    for e in (4 * t - 2, 90 * t2 - 45):
        close(m.lerp(a, z, e), a + (z - a) * e, f'lerp({a},{z},{e})', 1e-9, 1e-6)
        if a != z:
            close(m.invlerp(a, z, a + (z - a) * e), e, f'invlerp({a},{z},{a + (z - a) * e})', 1e-9, 1e-6)
    for fn, step, f in ((m.smoothsteplerp, m.smoothstep, s3), (m.smoothersteplerp, m.smootherstep, s5), (m.smootheststeplerp, m.smootheststep, s7)):
        close(fn(a, z, t), a + (z - a) * f(t) if a != z else a, f'{fn.__name__}({a},{z},{t})', 1e-9, 1e-7)
        close(fn(a, z, 0), a, f'{fn.__name__}({a},{z},0)', 1e-9, 1e-7)
        close(fn(a, z, 1), z, f'{fn.__name__}({a},{z},1)', 1e-9, 1e-7)
        lo, hi = sorted((t, t2))
        need((fn(a, z, hi) - fn(a, z, lo)) * (z - a) >= -1e-6, '%s from %s to %s is not monotone between %s and %s', fn.__name__, a, z, lo, hi)
        if a != z:
            v = a + (z - a) * t
            close(step(a, z, v), f((v - a) / (z - a)), f'{step.__name__}({a},{z},{v})', 1e-9, 1e-7)
    if a != z:
        close(m.invlerp(a, z, m.lerp(a, z, t)), t, f'invlerp of lerp({a},{z},{t})', 1e-9, 1e-7)
    else:
        m.invlerp(a, z, t)
    close(s3(m.invsmoothstep(t)), t, f'smoothstep of invsmoothstep({t})', 1e-9, 1e-6)
    close(m.invsmoothstep(s3(t)), t, f'invsmoothstep of smoothstep {t}', 1e-9, 1e-5)
    return a != z and 0 < t < 1


@P.part(st.tuples(M.rare(st.integers(0, 6), st.integers(7, 11), 40), st.lists(st.tuples(num, num).map(list), min_size=1, max_size=64), num).map(list), quick=800, rule='four values or more')
def fourier(case):
    """The transform is the discrete Fourier sum, is linear, and the inverse restores the values times their number."""
    k, d, s = case
    n = 1 << k
    v = [complex(*d[i % len(d)]) + i // len(d) for i in range(n)]
    for fn, sg in ((m.fft, -1), (m.ifft, 1)):
        got = list(v)
        fn(got)
        same(len(got), n, f'values of {fn.__name__}')
        for j in range(n) if n < 512 else {0, 1, 2, n // 2, n - 1, n // 4, 7, *(s * 41 % n for s in range(40))}:
            w = sum(x * cmath.exp(sg * 2j * cmath.pi * i * j / n) for i, x in enumerate(v))
            need(abs(got[j] - w) < 1e-6 * (1 + max(map(abs, v)) * n), '%s of %s: value %s is %s, the sum is %s', fn.__name__, v, j, got[j], w)
    back = list(v)
    m.fft(back)
    m.ifft(back)
    for x, y in zip(v, back):
        need(abs(x * n - y) < 1e-6 * (1 + max(map(abs, v)) * n), 'transform and back of %s gives %s', v, back)
    return n >= 4


@P.part(st.tuples(st.integers(-9, 9), st.integers(0, 8), st.integers(1, 5), st.integers(-40, 40).map(lambda v: v / 4), M.rare(st.integers(1, 60), st.integers(61, 3000), 8)).map(list), quick=1500, rule='a root was found')
def newton(case):
    """A root that is returned is a root; no root is returned for a flat start or a function without roots; polynomials converge to a root."""
    c, k, p, x0, mi = case
    f = lambda x: (x - c) ** p * (x * x + k)
    fp = lambda x: p * (x - c) ** (p - 1) * (x * x + k) + 2 * x * (x - c) ** p
    r, i = m.newtonmethod(x0, f, fp)
    if r is None:
        need(i is None, 'no root but %s iterations', i)
    else:
        d = min([abs(r - c)] + ([abs(r)] if k == 0 else []))
        need(d < 1e-5, 'root %s of (x%+d)^%s (x^2%+d) from %s is off by %s', r, -c, p, k, x0, d)
        need(0 <= i < 40, 'root after %s iterations of 40', i)
    # linear functions are solved in at most two steps
    a = c or 1
    r2, i2 = m.newtonmethod(x0, lambda x: a * x - k, lambda x: a, mi + 1)
    need(r2 is not None and abs(r2 - k / a) < 1e-9 and i2 <= 1, 'root of %sx-%s from %s is %s after %s', a, k, x0, r2, i2)
    # however flat or steep
    for e in (1e-15, 1e-12, 1e-7, 1e6, 1e12):
        r2, i2 = m.newtonmethod(x0, lambda x, e=e: (a * x - k) * e, lambda x, e=e: a * e, 40)
        need(r2 is not None and abs(r2 - k / a) < 1e-5, 'root of (%sx-%s)*%s from %s is %s after %s', a, k, e, x0, r2, i2)
    same(tuple(m.newtonmethod(0, lambda x: x * x + 1, lambda x: 2 * x)), (None, None), 'root from a flat start')
    same(tuple(m.newtonmethod(x0 + .25, lambda x: 1.0, lambda x: 1e-3, mi)), (None, None), 'root of a function without roots')
    # stops within the limit
    cnt = []
    m.newtonmethod(1.0, lambda x: (cnt.append(1), 1.0)[1], lambda x: 1.0, mi)
    need(len(cnt) <= mi, '%s steps of at most %s', len(cnt), mi)
    # complex roots
    w = cmath.exp(2j * math.pi / 3)
    z = complex(x0 / 10 + .3, c / 9 + .05)
    r3, _ = m.newtonmethod(z, lambda x: x ** 3 - 1, lambda x: 3 * x * x, 200)
    if r3 is not None:
        need(min(abs(r3 - w ** j) for j in range(3)) < 1e-6, 'cube root of one from %s is %s', z, r3)
    return r is not None


@P.part(st.sampled_from([[n, x] for x, top in ((1, 60), (2, 5), (3, 3), (4, 2), (5, 2), (7, 2), (40, 2)) for n in range(top + 1)]), quick=120, rule='a tower of two or more')
def power_towers(case):
    n, x = case
    want = 1
    for _ in range(n):
        want = x ** want
    same(m.tetration(x, n), want, f'{x} tetrated {n}')
    return n > 1


@P.part(st.tuples(st.lists(st.tuples(num, num).map(list), min_size=2, max_size=40), M.rare(st.integers(2, 9), st.integers(10, 300), 16), M.rare(st.integers(2, 9), st.integers(10, 300), 16)).map(list), quick=1500, rule='points spread in both directions')
def histogram(case):
    """Every point is counted once, in the bin its place in the range names."""
    pts, nx, ny = case
    X, Y = [p[0] for p in pts], [p[1] for p in pts]
    if min(X) == max(X) or min(Y) == max(Y):
        return False
    for got in (m.histogram2D(pts, nx, ny), m.histogram2Dcomplex([complex(*p) for p in pts], nx, ny)):
        same((len(got), {len(r) for r in got}), (ny, {nx}), 'bins')
        same(sum(map(sum, got)), len(pts), 'counted points')
        sx, sy = (max(X) - min(X)) / (nx - 1), (max(Y) - min(Y)) / (ny - 1)
        sure = [[0] * nx for _ in range(ny)]
        edge = []
        for x, y in pts:
            u, v = (x - min(X)) / sx, (y - min(Y)) / sy
            if min(u % 1, 1 - u % 1) < 1e-9 or min(v % 1, 1 - v % 1) < 1e-9:
                cells = {(int(math.floor(u + a)), int(math.floor(v + c))) for a in (-1e-9, 1e-9) for c in (-1e-9, 1e-9)}
                edge.append(cells)
            else:
                sure[int(v)][int(u)] += 1
        for j in range(ny):
            for i in range(nx):
                may = sum(1 for c in edge if (i, j) in c)
                need(sure[j][i] <= got[j][i] <= sure[j][i] + may, 'bin (%s,%s) counts %s, expected %s to %s: %s in %sx%s', i, j, got[j][i], sure[j][i], sure[j][i] + may, pts, nx, ny)
    return True
