"""Wraps every function of the library so that the calls made by a check can be watched: which arguments changed, and
what a second call with equal arguments gives.  Only calls made from outside the library are watched."""
import copy, functools, importlib, itertools, os, pkgutil, random, sys, types
from array import array
from collections.abc import Iterator
from .core import Violation, quiet

import pythonbmp

CALLS = None            # list of recorded calls while a case is watched
DEPTH = 0
LIMIT = 40              # calls recorded per case
ORIG = {}


class Impure(Violation):
    pass


def freeze(v, depth=0):
    """A comparable image of a value; None for what cannot be compared."""
    if isinstance(v, array):
        return ('array', v.typecode, v.tobytes())
    if isinstance(v, (bytes, bytearray)):
        return ('bytes', bytes(v))
    if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
        return (type(v).__name__, v)
    if isinstance(v, (float, complex)):
        return ('num', repr(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(e, depth + 1) for e in v))
    if isinstance(v, dict):
        return ('dict', tuple((freeze(k), freeze(e, depth + 1)) for k, e in v.items()))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, map(freeze, v)))))
    return ('other', getattr(v, '__name__', type(v).__name__))


def clone(v):
    if isinstance(v, array):
        return v[:]
    if isinstance(v, list):
        return [clone(e) for e in v]
    if isinstance(v, tuple):
        return tuple(clone(e) for e in v)
    if isinstance(v, dict):
        return {k: clone(e) for k, e in v.items()}
    if isinstance(v, (bytearray, set)):
        return v.copy()
    return v


def opaque(v):
    """Holds an iterator or an object whose state cannot be compared."""
    if isinstance(v, (list, tuple)):
        return any(map(opaque, v))
    if isinstance(v, dict):
        return any(map(opaque, v.values()))
    return not (v is None or callable(v) or isinstance(v, (array, bytes, bytearray, str, int, float, complex, set, frozenset)))


def wrap(name, fn):
    @functools.wraps(fn)
    def f(*a, **k):
        global DEPTH
        if CALLS is None or DEPTH or len(CALLS) >= LIMIT or any(map(opaque, a)) or any(map(opaque, k.values())):
            return fn(*a, **k)
        given = (clone(a), clone(k))
        before = [freeze(v) for v in a], {n: freeze(v) for n, v in k.items()}
        state = random.getstate()
        DEPTH += 1
        try:
            r = fn(*a, **k)
            out = r
            if isinstance(r, Iterator) and not hasattr(r, 'read'):
                head = list(itertools.islice(r, 20000))
                out, r = head, itertools.chain(head, r)
        finally:
            DEPTH -= 1
        rec = {'n': name, 'f': fn, 'given': given, 'before': before, 'after': ([freeze(v) for v in a], {n: freeze(v) for n, v in k.items()}),
               'out': freeze(out), 'state': state, 'gen': out is not r}
        CALLS.append(rec)
        return r
    f.pbt_orig = fn
    return f


def install():
    mods = [pythonbmp] + [importlib.import_module('pythonbmp.' + m.name) for m in pkgutil.iter_modules(pythonbmp.__path__)]
    wrapped = {}
    for m in mods:
        for n, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and (v.__module__ or '').startswith('pythonbmp') and not n.startswith('__'):
                if v not in wrapped:
                    wrapped[v] = wrap(n, v)
                setattr(m, n, wrapped[v])


def watch(fn, case):
    """Run a check on a case -> the calls it made to the library."""
    global CALLS, DEPTH
    CALLS, DEPTH = [], 0
    try:
        fn(case)
    except (Violation, ValueError, TypeError, ArithmeticError, LookupError, AttributeError, OSError):
        pass            # judged by the property it belongs to
    finally:
        calls, CALLS = CALLS, None
    return calls


def again(rec):
    a, k = clone(rec['given'][0]), clone(rec['given'][1])
    random.setstate(rec['state'])
    r, _ = quiet(rec['f'], *a, **k)
    if rec['gen']:
        r = list(itertools.islice(r, 20000))
    return ([freeze(v) for v in a], {n: freeze(v) for n, v in k.items()}), freeze(r)


def scribble(v):
    """Damage a result in every place a caller could."""
    if isinstance(v, array):
        for i in range(len(v)):
            try:
                v[i] ^= 0x5a
            except TypeError:
                v[i] += 1
    elif isinstance(v, list):
        for e in v:
            scribble(e)
        v.append('scribble')
        v.reverse()
    elif isinstance(v, dict):
        for e in v.values():
            scribble(e)
        v.clear()
    elif isinstance(v, tuple):
        for e in v:
            scribble(e)
    elif isinstance(v, bytearray):
        v.reverse()
    elif isinstance(v, set):
        v.clear()


def tupled(v, depth=-1):
    """A copy with tuples for the lists inside lists."""
    if isinstance(v, list):
        w = [tupled(e, depth + 1) for e in v]
        return tuple(w) if depth > 0 else w
    if isinstance(v, tuple):
        return tuple(tupled(e, depth + 1) for e in v)
    if isinstance(v, dict):
        return {k: tupled(e, 0) for k, e in v.items()}
    return clone(v)


def halved(v, depth=-1):
    """A copy with a half added to the whole numbers of the lists inside lists."""
    if isinstance(v, (list, tuple)):
        return type(v)(halved(e, depth + 1) for e in v)
    if isinstance(v, dict):
        return {k: halved(e, 0) for k, e in v.items()}
    if depth > 1 and type(v) is int:
        return v + .5
    return clone(v)


def buffers(v):
    """The buffers a value holds."""
    if isinstance(v, array):
        return [v]
    if isinstance(v, (list, tuple)):
        return [e for w in v for e in buffers(w)]
    if isinstance(v, dict):
        return buffers(list(v.values()))
    return []
