"""C31 calls change only what they are documented to change, depend on nothing but their arguments and give results that are the caller's own."""
import importlib, itertools, random
from hypothesis import strategies as st
from .. import purity as U
from ..core import Prop, quiet, short

U.install()         # before the other properties import functions by name

P = Prop('C31', ['the calls watched are those the other checks make; what they compute is decided there'])

# arguments a call may change: its first one when that is a bitmap or buffer and the function is no reader, and these
WRITES = {('adjustcolordicttopal', 1), ('copyRGBpal', 1), ('fft', 0), ('ifft', 0), ('applyfft', 0), ('applyfft', 1), ('applyfft', 2), ('hilbertvert', 0), ('writeint', 2), ('setnewpalfromsourcebmp', 1)}
READERS = set('''BMPbitBLTget CopyBMPxydim2newBMP altsplitbuf altsplitbuf3way altsplitbufnway bottomrightcoord buf2int centercoord colorhistogram convertbufto24bit
convertselection2BMP copyRGBpal copycircregion2buf copyrect crop flipnibbleinbuf getBGRpalbuf getBMPimgbytes getRGBpal getRGBxybit getRGBxybitvec getallRGBpal
getcharfont getimagedgevert getimageregionbyRGB getmaxcolors getmaxx getmaxxy getmaxxyandbits getmaxy getneighborcolorlist getxybit getxybitvec imagecomp imagediff
invertbitsinbuffer isdefaultpal isinBMPrectbnd itercopyrect itergetcharfromfontbuf itergetcolorfromrectregion iterimageRGB iterimagecolor iterimagedgevert
iterimageregionvertbyRGB listinBMPrecbnd makeBGRbuf plotbmpastext resize1bitbufNtimesbigger resize24bitbufNtimesbigger resize4bitbufNtimesbigger
resize8bitbufNtimesbigger resizeNtimesbigger resizebufNtimesbigger resizesmaller24bitbuf rotatebitsinbuf saveBMP readint unpack4bitbuf pack4bitbuf
setnewpalfromsourcebmp unpack4bitbufresizeNtimesbigger vertBMPbitBLTget'''.split())

MODS = {}
PARTS = {}
for _i in range(1, 31):
    if _i in (18, 19):      # guards and file versions: wrappers of their own
        continue
    _c = f'c{_i:02d}'
    MODS[_c] = importlib.import_module('pbt.props.' + _c)
    for _p in MODS[_c].P.parts:
        if _p.quick and _p.name not in ('large_bitmap', 'not_a_bitmap'):
            PARTS[f'{_c}.{_p.name}'] = _p


def strategies():
    out = []
    for k, p in PARTS.items():
        every = p.strategy if isinstance(p.strategy, list) else [p.strategy]
        for i in range(min(len(every), 6)):
            s = st.one_of(every[i::6])
            out.append(st.tuples(st.just(k), st.lists(s, min_size=1, max_size=2)).map(list))
    return out


def names(rec):
    return rec['n'] + '(' + ', '.join([short(v, 60) for v in rec['given'][0]] + [f'{n}={short(v, 60)}' for n, v in rec['given'][1].items()]) + ')'


def files(rec):
    v = list(rec['given'][0]) + list(rec['given'][1].values())
    return any(isinstance(s, str) and ('/' in s or '.' in s) for s in v) or rec['n'].endswith(('2file', '2dir')) or rec['n'] in ('loadBMP', 'saveBMP')


def watched(case):
    key, subs = case
    calls = []
    for s in subs:
        random.seed(7)
        calls += U.watch(PARTS[key].check, s)
    return calls


@P.part(strategies(), quick=1200, rule='a call is given a list, table, bitmap or buffer')
def arguments_kept(case):
    """No call changes a list, table or buffer it is only given to read."""
    some = False
    for r in watched(case):
        (b0, bk), (a0, ak) = r['before'], r['after']
        for i, (x, y) in enumerate(zip(b0, a0)):
            some |= x[0] in ('list', 'dict', 'array', 'bytes')
            if x != y and not (r['n'], i) in WRITES and not (i == 0 and x[0] in ('array', 'bytes') and r['n'] not in READERS):
                raise U.Impure(f'{names(r)} changed its argument {i + 1}: {short(x, 120)} became {short(y, 120)}')
        for n in bk:
            if bk[n] != ak[n]:
                raise U.Impure(f'{names(r)} changed its argument {n}')
    return some


@P.part(strategies(), quick=800, rule='a call is given tuples or fractions where the check gave lists or whole numbers')
def other_kinds_kept(case):
    """Points given as tuples, or with fractions, are still the same objects with the same values after the call."""
    some = False
    for r in watched(case):
        if files(r):
            continue
        for kind in (U.tupled, U.halved):
            a, k = kind(r['given'][0]), kind(r['given'][1])
            x, xk = [U.freeze(v) for v in a], {n: U.freeze(v) for n, v in k.items()}
            if x == r['before'][0] and xk == r['before'][1]:
                continue
            random.setstate(r['state'])
            try:
                v, _ = quiet(r['f'], *a, **k)
                if r['gen']:
                    list(itertools.islice(v, 20000))
            except Exception:
                pass        # such values need not be taken
            for i, v in enumerate(a):
                y = U.freeze(v)
                if x[i] != y and not (r['n'], i) in WRITES and not (i == 0 and x[i][0] in ('array', 'bytes') and r['n'] not in READERS):
                    raise U.Impure(f'{r["n"]} changed its argument {i + 1}: {short(x[i], 120)} became {short(y, 120)}')
            some = True
    return some


@P.part(strategies(), quick=1200, rule='a call is made again and gives something')
def same_again(case):
    """The same call made again, after others, does and gives the same."""
    some = False
    for r in reversed(watched(case)):
        if files(r):
            continue
        (aft, out) = U.again(r)
        for i, (x, y) in enumerate(zip(r['after'][0], aft[0])):
            if x != y:
                raise U.Impure(f'{names(r)} made again changes its argument {i + 1} differently')
        if out != r['out']:
            raise U.Impure(f'{names(r)} made again gives {short(out, 120)}, before {short(r["out"], 120)}')
        some |= out != ('NoneType', None) or aft != r['before']
    return some


@P.part(strategies(), quick=1200, rule='a result is a list, table or buffer')
def own_results(case):
    """Whatever the caller does to a list, table or buffer it was given, the next call gives a fresh one."""
    some = False
    for r in watched(case):
        if files(r):
            continue
        a, k = U.clone(r['given'][0]), U.clone(r['given'][1])
        random.setstate(r['state'])
        x, _ = quiet(r['f'], *a, **k)
        if r['gen']:
            x = list(itertools.islice(x, 20000))
        if not isinstance(x, (list, dict, tuple, U.array)):
            continue
        U.scribble(x)
        try:
            _, out = U.again(r)
        except Exception as e:
            out = repr(e)
        if out != r['out']:
            raise U.Impure(f'{names(r)}: after the caller changed its result the next one is {short(out, 120)} instead of {short(r["out"], 120)}')
        some |= not isinstance(x, tuple) or any(isinstance(e, (list, dict, U.array)) for e in x)
    return some


# hand back the buffer they were given to change, or one that needs no change
HANDS_BACK = {'flipbuf', 'upgradeto24bitimage'}


@P.part(strategies(), quick=800, rule='a result holds a bitmap or buffer')
def results_apart(case):
    """A bitmap or buffer that a call computes from another is a new one: drawing on either leaves the other alone."""
    some = False
    for r in watched(case):
        if files(r):
            continue
        a, k = U.clone(r['given'][0]), U.clone(r['given'][1])
        random.setstate(r['state'])
        x, _ = quiet(r['f'], *a, **k)
        if r['gen']:
            x = list(itertools.islice(x, 20000))
        got = U.buffers(x)
        if not got:
            continue
        for i, v in enumerate(a):
            mine = i == 0 and isinstance(v, U.array) and (r['n'] in HANDS_BACK or r['n'] not in READERS)
            if not mine and {id(e) for e in U.buffers(v)} & {id(e) for e in got}:
                raise U.Impure(f'{names(r)} gives the buffer of its argument {i + 1} itself, not a new one')
        some = True
    return some
