"""C18 guards: refused calls say why and leave everything alone; wrappers pass everything else through; timers and descriptions are right."""
import ast, io, os, re, tempfile, time, types
from contextlib import redirect_stdout
from hypothesis import strategies as st
from .. import model as M
from ..core import Prop, need, same, quiet
import pythonbmp.BITMAPlib as b
from pythonbmp import paramchecks as G
from pythonbmp import fileutils, funcmeta, proctimer
from pythonbmp.messages import sysmsg

P = Prop('C18', ['arguments of guarded functions are passed by position, as everywhere in the library', 'a coordinate is an integer when its type is int', 'coordinates that are no numbers at all may be refused by a TypeError'])

DEC = {'intcircleparam': ('c', None, 0), 'intcircleparam24bitonly': ('c', (24,), 0), 'func24bitonly': (None, (24,), 0), 'func8and24bitonly': (None, (8, 24), 0), 'func4and8bitonly': (None, (4, 8), 0),
       'entirerectinboundary': ('r', None, 1), 'entirecircleinboundary': ('c', None, 1), 'func24bitonlyandentirerectinboundary': ('r', (24,), 1), 'func24bitonlyandentirecircleinboundary': ('c', (24,), 1),
       'func8and24bitonlyandentirecircleinboundary': ('c', (8, 24), 1), 'func8and24bitonlyandentirerectinboundary': ('r', (8, 24), 1)}
WORDS = {'depth': r'(?i)bit', 'type': r'(?i)\bint', 'bounds': r'(?i)bound'}


@st.composite
def place(draw, kind, w, h):
    """Coordinates of an area: inside, at the very edge, or just outside; sometimes not integers."""
    if kind == 'r':
        v = [draw(M.coord(w, 3)), draw(M.coord(h, 3)), draw(M.coord(w, 3)), draw(M.coord(h, 3))]
    else:
        r = draw(st.integers(0, 9))
        v = [draw(st.one_of(M.coord(w, 3), st.sampled_from([r, r - 1, w - 1 - r, w - r, w - 2 - r]))), draw(st.one_of(M.coord(h, 3), st.sampled_from([r, r - 1, h - 1 - r, h - r, h - 2 - r]))), r]
    if draw(st.integers(0, 5)) == 0:
        i = draw(st.integers(0, len(v) - 1))
        v[i] = draw(st.sampled_from([float(v[i]), v[i] + .5, None, str(v[i])]))
    return v


def flaws(kind, depths, bound, v, img):
    """Reasons to refuse."""
    out = []
    if depths and img['bits'] not in depths:
        out.append('depth')
    if kind and any(type(q) != int for q in v):
        out.append('type')
    elif kind and bound:
        w, h = img['w'], img['h']
        box = v if kind == 'r' else [v[0] - v[2], v[1] - v[2], v[0] + v[2], v[1] + v[2]]
        if not (0 <= box[0] < w and 0 <= box[2] < w and 0 <= box[1] < h and 0 <= box[3] < h):
            out.append('bounds')
    return out


def said(out, why, what):
    need(any(re.search(WORDS[f], out) for f in why), '%s refused for %s says %r', what, why, out)


@st.composite
def deccase(draw, d):
    img = draw(M.images(maxw=24, maxh=24, big=False, pal=False))
    v = draw(place(DEC[d][0], img['w'], img['h'])) if DEC[d][0] else []
    return {'d': d, 'img': img, 'v': v, 'extra': draw(st.lists(st.integers(0, 9) | st.text(max_size=3), max_size=3)), 'kw': draw(st.dictionaries(st.sampled_from(['kw', 'par']), st.integers(0, 9), max_size=2)), 'ret': draw(st.integers())}


@P.part([deccase(d) for d in sorted(DEC)], quick=3000, rule='the wrapper takes coordinates')
def wrappers(case):
    """A guarded function runs once with everything it was given exactly when depth, types and bounds are right; otherwise the reason is printed and it does not run."""
    kind, depths, bound = DEC[case['d']]
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    calls = []

    def target(*a, **k):
        """What it does."""
        calls.append((a, k))
        return case['ret']
    fn = getattr(G, case['d'])(target)
    same((fn.__name__, fn.__doc__), ('target', 'What it does.'), case['d'] + ': name and documentation')
    need(not calls, '%s runs the function while wrapping it', case['d'])
    args = [bmp] + case['v'] + case['extra']
    what = f'{case["d"]} with {case["v"]} on {img.w}x{img.h} {img.bits}-bit'
    got, out = quiet(fn, *args, **case['kw'])
    why = flaws(kind, depths, bound, case['v'], case['img'])
    if why:
        need(not calls and got is None, '%s: ran in spite of wrong %s', what, why)
        said(out, why, what)
    else:
        need(len(calls) == 1, '%s: ran %s times', what, len(calls))
        need(calls[0][0][0] is bmp and list(calls[0][0][1:]) == args[1:] and calls[0][1] == case['kw'], '%s: passed %s %s', what, calls[0][0][1:], calls[0][1])
        same(got, case['ret'], what + ': returned')
        same(out, '', what + ': printed')
    M.expect(bmp, img, what)
    return kind is not None


R = {n: (a, d) for n, a, d in [
    ('filledgradrect', ([0, 255], [1, 1, 1], 0), (8, 24)), ('filleddichromaticgradrect', (0, 255, 0), (24,)), ('filledrect', (1,), None), ('xygrid', ([3, 3], 1), None), ('copyrect', (), None), ('itercopyrect', (), None),
    ('erasealternatehorizontallinesinregion', (2, 0, 1), None), ('eraseeverynthhorilineinregion', (2,), None), ('verttransregion', ('F',), None), ('flipverticalregion', (), None), ('mirrorbottominregion', (), None),
    ('mirrortopinregion', (), None), ('fliphorizontalregion', (), None), ('mirrorleftinregion', (), None), ('mirrorrightinregion', (), None), ('mirrortopleftinregion', (), None), ('mirrortoprightinregion', (), None),
    ('mirrorbottomleftinregion', (), None), ('mirrorbottomrightinregion', (), None), ('fliphorzontalpixelbased', (), None), ('fliphverticalalpixelbased', (), None), ('itergetcolorfromrectregion', (), None), ('crop', (), None), ('invertregion', (), None),
    ('monofilterto24bitregion', (), (24,)), ('colorfilterto24bitregion', ([1, .5, 0],), (24,)), ('brightnesseadjto24bitregion', (50,), (24,)), ('thresholdadjto24bitregion', ([9, 99],), (24,)),
    ('verticalbrightnessgradto24bitregion', ([0, 255],), (24,)), ('horizontalbrightnessgradto24bitregion', ([0, 255],), (24,)), ('gammaadjto24bitregion', (2,), (24,)), ('fern', (1,), None)]}
C = {n: (a, d, bd) for n, a, d, bd in [
    ('copycircregion2buf', (), None, 1), ('flipXYcircregion', (), None, 1), ('fliphoricircregion', (), (8, 24), 1), ('mirrorleftincircregion', (), (8, 24), 1), ('mirrorrightincircregion', (), (8, 24), 1),
    ('horitransformincircregion', ('F',), (8, 24), 1), ('verttransformincircregion', ('F',), None, 1), ('flipvertcircregion', (), None, 1), ('mirrortopincircregion', (), None, 1), ('mirrorbottomincircregion', (), None, 1),
    ('mirrortopleftincircregion', (), (8, 24), 1), ('mirrortoprightincircregion', (), (8, 24), 1), ('mirrorbottomleftincircregion', (), (8, 24), 1), ('mirrorbottomrightincircregion', (), (8, 24), 1),
    ('vertbrightnessgrad2circregion', ([0, 255],), (24,), 1), ('horibrightnessgrad2circregion', ([0, 255],), (24,), 1), ('erasealternatehorizontallinesincircregion', (2, 0, 1), None, 1), ('eraseeverynthhorizontallineinccircregion', (2,), None, 1),
    ('magnifyNtimescircregion', (2,), (24,), 1), ('pixelizenxncircregion', (2,), (24,), 1), ('monocircle', (), (24,), 0), ('colorfiltercircregion', ([1, .5, 0],), (24,), 0), ('gammacorrectcircregion', (2,), (24,), 0),
    ('brightnessadjcircregion', (50,), (24,), 0), ('thresholdadjcircregion', ([9, 99],), (24,), 0), ('invertbitsincircregion', (), None, 0), ('outlinecircregion', (), None, 0), ('drawarc', (0, 90, 1, True, 1, True), None, 0),
    ('sphere', ([1, .5, 0],), None, 0), ('thickencirclearea', ([1, .5, 0],), None, 0)]}
D = {'graddichromiccircle': ((5, 5, 3, 0, 255), (24,)), 'resizeNtimessmaller': ((2,), (24,)), 'palshift': ((1,), (4, 8)), 'itercolorcycle': ((), (4, 8))}


@st.composite
def funcase(draw, n):
    img = draw(M.images(maxw=24, maxh=24, big=False))
    return {'f': n, 'img': img, 'v': [] if n in D else draw(place('r' if n in R else 'c', img['w'], img['h']))}


@P.part([funcase(n) for n in sorted(R) + sorted(C) + sorted(D)], quick=3000, rule='the call is refused')
def refused_calls(case):
    """Functions limited to a depth, to integers or to areas inside the bitmap refuse other calls with a message and change nothing."""
    n = case['f']
    img = M.from_case(case['img'])
    bmp = M.to_bmp(img)
    if n in R:
        extra, depths, kind, bound = *R[n], 'r', 1
    elif n in C:
        (extra, depths, bound), kind = C[n], 'c'
    else:
        (extra, depths), kind, bound = D[n], None, 0
    why = flaws(kind, depths, bound, case['v'], case['img'])
    what = f'{n} {case["v"]} on {img.w}x{img.h} {img.bits}-bit'
    if not why:
        return False
    before = bytes(bmp)
    try:
        got, out = quiet(getattr(b, n), bmp, *case['v'], *[list(e) if isinstance(e, list) else e for e in extra])
    except TypeError:
        if all(isinstance(q, (int, float)) for q in case['v']):
            raise
        got, out = None, 'bits int bound'    # refusing text or None by raising is fine, too
    need(bytes(bmp) == before, '%s: changed the bitmap', what)
    if got is not None:
        need(isinstance(got, (list, tuple)) and not any(got), '%s: returned %.80r', what, got)
    said(out, why, what)
    return True


@P.part(st.tuples(st.booleans(), st.booleans(), st.integers(0, 2), st.integers()).map(list), quick=300, rule='a file is missing')
def missing_files(case):
    """Functions of files run when their files exist; otherwise that is reported and they do not run."""
    have = case[:2]
    calls = []

    def target(*a, **k):
        """Doc."""
        calls.append((a, k))
        return case[3]
    names = [tempfile.mktemp(dir='.') for _ in range(2)]
    try:
        for f, there in zip(names, have):
            if there:
                open(f, 'w').close()
            elif case[2] == 1:
                os.mkdir(f)
        for dec, ok in ((fileutils.checklink, have[0]), (fileutils.checklinks, all(have))):
            calls.clear()
            fn = dec(target)
            same((fn.__name__, fn.__doc__), ('target', 'Doc.'), dec.__name__)
            got, out = quiet(fn, *names, 5, k=6)
            if ok:
                need(calls == [((*names, 5), {'k': 6})] and got == case[3] and not out, '%s: calls %s, returned %s, printed %s', dec.__name__, calls, got, out)
            else:
                need(not calls and got is None and re.search('(?i)exist', out), '%s of missing files: calls %s, returned %s, printed %s', dec.__name__, calls, got, out)
    finally:
        for f in names:
            os.path.isdir(f) and os.rmdir(f)
            os.path.isfile(f) and os.remove(f)
    return not all(have)


@P.part(st.tuples(st.integers(0, 10 ** 10) | st.integers(0, 4 * 10 ** 14) | st.sampled_from([5 * 10 ** 6, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 59 * 10 ** 9]), st.integers(), st.integers(0, 5)).map(list), quick=1200, rule='more than a minute')
def elapsed_times(case):
    """Elapsed times read as hours, minutes, seconds and nanoseconds are the time that passed; a timed function gets its arguments and its result through."""
    k = case[0]
    a = time.process_time_ns()
    text = proctimer.hhmmsselaspedtime(a - k)
    z = time.process_time_ns()
    m = re.fullmatch(r'(\d\d+):(\d\d):(\d\d)\.(\d{1,9})', text)
    need(m, 'elapsed time %r after %s ns', text, k)
    h, mi, s, f = m.groups()
    need(int(mi) < 60 and int(s) < 60, 'elapsed time %r', text)
    ns = ((int(h) * 60 + int(mi)) * 60 + int(s)) * 10 ** 9 + int(f.ljust(9, '0'))
    need(k <= ns <= k + z - a, 'elapsed time %r after %s ns', text, k)
    a = time.process_time_ns()
    sec = proctimer.elaspedtimeinseconds(a - k)
    z = time.process_time_ns()
    need(k / 1e9 - 1e-9 * (1 + k / 1e6) <= sec <= (k + z - a) / 1e9 + 1e-9 * (1 + k / 1e6), 'elapsed seconds %s after %s ns', sec, k)
    seen = []

    def target(*a, **kw):
        """Doc."""
        seen.append((a, kw))
        if case[2] == 0:
            raise KeyError(case[1])
        return case[1]
    fn = proctimer.functimer(target)
    same((fn.__name__, fn.__doc__), ('target', 'Doc.'), 'timed function')
    try:
        got, out = quiet(fn, 1, case[1], x=3)
        same(got, case[1], 'result of a timed function')
        need('target' in out and re.search(r'\d\d:\d\d:\d\d\.\d', out), 'a timed function prints %r', out)
        need(case[2] != 0, 'a timed function hides its exception')
    except KeyError:
        need(case[2] == 0, 'a timed function raised')
    same(seen, [((1, case[1]), {'x': 3})], 'calls of a timed function')
    return k > 60e9


NAMES = sorted(n for n, f in vars(b).items() if isinstance(f, types.FunctionType) and f.__doc__ and f.__name__ != '<lambda>')


@P.part(st.integers(0, len(NAMES) - 1), quick=500, rule='always')
def descriptions(case):
    """The description of a function is its definition line with its parameters and its documentation."""
    f = vars(b)[NAMES[case]]
    text = funcmeta.getfuncmetastr(f)
    head = f'def {f.__name__}('
    need(text.startswith(head), 'description of %s starts %r', f.__name__, text[:60])
    need(text.count('"""') == 2 and text.split('"""')[1] == f.__doc__, 'description of %s lacks its documentation', f.__name__)
    sig = text.split('"""')[0]
    at = -1
    for p in __import__('inspect').signature(f).parameters:
        nxt = re.search(r'[(, *]' + p + r'\b', sig[at + 1:])
        need(nxt, 'description of %s lacks parameter %s: %r', f.__name__, p, sig)
        at += 1 + nxt.start()
    return True
