"""Runner for the property checks: generated-input search with Hypothesis.

A property module registers *parts*.  A part is (strategy, check): the strategy
builds a JSON-able case, the check runs the real code from /repo on it and
raises Violation when the oracle disagrees.  The replay file is the shrunk case;
replaying it bypasses Hypothesis.
"""
import io, json, os, sys, time, random, signal, hashlib, resource, tempfile, traceback, zlib, shutil
from contextlib import redirect_stdout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_LIMIT = 60.0       # CPU seconds one small case may take before it counts as non-terminating
SHRINK_WALL = 45.0          # wall seconds spent on shrinking one failure


# how many times the parts' own number of cases the quick check runs: what fits in some twenty seconds
SCALE = {'C01': 8, 'C02': 8, 'C07': 2, 'C15': 2, 'C25': 2, 'C27': 2, 'C03': 4, 'C04': 5, 'C05': 3, 'C06': 3, 'C08': 2, 'C09': 3, 'C10': 2, 'C11': 2, 'C12': 3, 'C13': 3, 'C14': 3, 'C16': 3, 'C17': 8, 'C18': 4,
         'C19': 4, 'C21': 5, 'C22': 6, 'C23': 5, 'C24': 6, 'C26': 3, 'C28': 8, 'C29': 2, 'C30': 2, 'C31': 4}


class Violation(AssertionError):
    pass


class Hang(BaseException):
    pass


class StopSearch(BaseException):
    pass


class Part:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Prop:
    def __init__(self, pid, assumptions=()):
        self.id = pid
        self.scale = SCALE.get(pid, 1)
        self.parts = []
        self.assumptions = list(assumptions)

    def part(self, strategy, quick=200, thorough=None, rule='', name=None):
        """Register check(case)->truthy when the case was non-trivial by `rule`; a list of strategies shares the cases evenly."""
        def deco(fn):
            self.parts.append(Part(self.id, name or fn.__name__, strategy, fn, quick,
                                   thorough if thorough is not None else quick * 12, rule))
            self.parts[-1].quick *= self.scale if quick >= 100 else 1
            return fn
        return deco


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def close(got, want, what, rel=1e-9, ab=1e-9):
    """Numeric closeness through nested sequences."""
    if isinstance(want, (list, tuple)):
        need(isinstance(got, (list, tuple)) and len(got) == len(want),
             '%s: got %s, expected %s', what, short(got), short(want))
        for g, w in zip(got, want):
            close(g, w, what, rel, ab)
        return
    ok = isinstance(got, (int, float, complex)) and (got == want or abs(got - want) <= max(ab, rel * max(abs(got), abs(want))))
    if not ok:
        raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def quiet(fn, *a, **k):
    """Call with stdout captured; returns (result, printed)."""
    out = io.StringIO()
    with redirect_stdout(out):
        r = fn(*a, **k)
    return r, out.getvalue()


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def _key(case):
    return json.dumps(case, sort_keys=True)


def _onprof(sig, frm):
    raise Hang()


def classify(exc):
    """'violation' or 'harness' for an exception that escaped a check body."""
    if isinstance(exc, (Violation, Hang)):
        return 'violation'
    if isinstance(exc, FileNotFoundError):
        return 'violation'
    if isinstance(exc, OSError):
        return 'harness'
    if isinstance(exc, (ImportError, NameError)) and not _inrepo(exc):
        return 'harness'
    # The check body only feeds the code valid inputs and reads its results: an exception raised by the code,
    # or by reading a result of the wrong shape, means the code broke its contract.
    return 'violation'


def _inrepo(exc):
    return any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(exc.__traceback__))


def run_case(part, case):
    """Run one case; returns (nontrivial, None) or (False, (kind, message))."""
    random.seed(12345)
    signal.signal(signal.SIGVTALRM, _onprof)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        r = part.check(case)
        return bool(r), None
    except StopSearch:
        raise
    except Hang as e:
        return False, ('violation', f'no result after {CASE_CPU_LIMIT:.0f} s of CPU time', True)
    except KeyboardInterrupt:
        raise
    except SystemExit as e:
        return False, ('violation', 'the code ended the process: %r' % e, False)
    except Exception as e:
        kind = classify(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else '?'
        msg = str(e) if isinstance(e, Violation) else f'{type(e).__name__}: {e} at {where}'
        if kind == 'harness':
            msg += '\n' + traceback.format_exc()
        return False, (kind, msg, False)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _fewer_mutations(hypothesis, seed, keep=0.15):
    """Hypothesis follows every case it draws by up to five variations that copy parts of it over one another.
    They find coincidences, but as most of the budget they cost variety: keep them for one case in seven."""
    from hypothesis.internal.conjecture import engine
    cls = engine.ConjectureRunner
    full = getattr(cls, 'pbt_full', None) or getattr(cls, 'generate_mutations_from', None)
    if full is None:
        return
    rnd = random.Random(seed)
    cls.pbt_full = full
    cls.generate_mutations_from = lambda self, data: full(self, data) if rnd.random() < keep else None


def _shares(strategies, n, seed):
    """Share n cases among strategies, each getting at least one while they last (which ones then rotates with the seed)."""
    m = len(strategies)
    k = seed % m
    out = [(x, n // m + (1 if i < n % m else 0)) for i, x in enumerate(strategies[k:] + strategies[:k])]
    return [(x, c) for x, c in out if c]


def search(part, seed, n, wall):
    """Hypothesis search over one part.  Runs in a worker process."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    st = {'n': 0, 'keys': set(), 'samples': [], 'best': None, 'harness': None, 't0': time.time(), 'tfail': None, 'cut': False}

    def body(case):
        if st['tfail'] is not None and time.time() - st['tfail'] > SHRINK_WALL:
            raise StopSearch()
        if st['tfail'] is None and time.time() > wall:
            st['cut'] = True
            raise StopSearch()
        key = _key(case)
        case = json.loads(key)
        nt, bad = run_case(part, case)
        if st['tfail'] is None:
            st['n'] += 1
        if bad:
            if bad[0] == 'harness':
                st['harness'] = bad[1] + '\ncase: ' + key[:2000]
                raise StopSearch()
            if st['tfail'] is None:
                st['tfail'] = time.time()
            if st['best'] is None or (len(key), key) < (len(st['best'][0]), st['best'][0]):
                st['best'] = (key, bad[1])
            if bad[2]:
                raise StopSearch()
            raise Violation('x')
        if nt and st['tfail'] is None:
            h = hashlib.blake2b(key.encode(), digest_size=10).digest()
            if h not in st['keys']:
                st['keys'].add(h)
                if len(st['samples']) < 3 or (len(st['samples']) < 6 and len(st['keys']) % 37 == 0):
                    st['samples'].append(key[:600])

    strategies = part.strategy if isinstance(part.strategy, list) else [part.strategy]
    _fewer_mutations(hypothesis, seed)
    for i, (strategy, k) in enumerate(_shares(strategies, n, seed)):
        s = settings(max_examples=k, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                     verbosity=Verbosity.quiet, print_blob=False)
        test = hypothesis.seed(seed + i)(s(given(strategy)(body)))
        try:
            test()
        except StopSearch:
            pass
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            if st['best'] is None:
                raise
        if st['best'] or st['harness'] or st['cut']:
            break
    return st


def _worker(args):
    part, seed, n, wall = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.stdout = _Null()
    d = tempfile.mkdtemp(prefix='pbt_')
    old = os.getcwd()
    os.chdir(d)
    t0 = time.time()
    try:
        st = search(part, seed, n, wall)
        return {'part': part.name, 'seed': seed, 'n': st['n'], 'keys': st['keys'], 'samples': st['samples'], 'best': st['best'],
                'harness': st['harness'], 'cut': st['cut'], 'wall': time.time() - t0}
    except BaseException as e:
        return {'part': part.name, 'seed': seed, 'n': 0, 'keys': set(), 'samples': [], 'best': None, 'cut': False,
                'harness': traceback.format_exc(), 'wall': time.time() - t0}
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k['property'] == pid and k['status'] == 'known']


def run(prop, tier, seed, only=None, scale=1.0):
    import multiprocessing as mp
    t0 = time.time()
    parts = [p for p in prop.parts if (p.name in only if only else p.quick)]
    jobs = []
    if tier == 'quick':
        wall = t0 + 420
        for p in parts:
            chunks = max(1, min(8, p.quick // 120))
            for c in range(chunks):
                jobs.append((p, _seed(seed, p.name, c), max(1, int(p.quick * scale) // chunks), wall))
    else:
        wall = t0 + float(os.environ.get('VERIF_WALL', '1800'))
        for p in parts:
            chunks = max(1, min(8, p.thorough // 400))
            for c in range(chunks):
                jobs.append((p, _seed(seed, p.name, c), max(1, int(p.thorough * scale) // chunks), wall))
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    jobs = list(enumerate(jobs))
    results = [None] * len(jobs)
    global _JOBS
    _JOBS = [j for _, j in jobs]
    if nproc == 1 or len(jobs) == 1:
        for i, j in jobs:
            results[i] = _inproc(j)
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=4) as pool:
            for i, r in enumerate(pool.imap(_byindex, range(len(jobs)), chunksize=1)):
                results[i] = r
    # known findings: re-run exactly the listed inputs
    byname = {p.name: p for p in prop.parts}
    for k in known_findings(prop.id):
        part = byname[k['part']]
        with open(os.devnull, 'w') as dn, redirect_stdout(dn):
            _, bad = run_case(part, k['case'])
        if bad and bad[0] == 'violation':
            print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['n'] for r in results),
                       'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'parts': {}},
          'assumptions': prop.assumptions, 'wall_s': 0, 'violations': 0}
    cov = ev['coverage']
    allrules = []
    for p in parts:
        rs = [r for r in results if r['part'] == p.name]
        keys = set().union(*[r['keys'] for r in rs])
        cov['parts'][p.name] = {'evaluations': sum(r['n'] for r in rs), 'distinct_nontrivial': len(keys),
                                'wall_s': round(sum(r['wall'] for r in rs), 2), 'cut_by_time': any(r['cut'] for r in rs)}
        cov['distinct_nontrivial'] += len(keys)
        allrules.append(f'{p.name}: {p.rule}')
        smp = [s for r in rs for s in r['samples']]
        cov['samples'] += [f'{p.name}: {s}' for s in smp[:3]]
    cov['rule'] = ('Cases are drawn by Hypothesis from the part\'s strategy; a case counts as non-trivial when the check '
                   'returned true for it, by part: ' + '; '.join(allrules))
    harness = [r for r in results if r['harness']]
    fails = [r for r in results if r['best']]
    seen = set()
    code = 0
    for r in fails:
        if r['part'] in seen:
            continue
        seen.add(r['part'])
        rs = [x for x in fails if x['part'] == r['part']]
        key, msg = min((x['best'] for x in rs), key=lambda b: (len(b[0]), b[0]))
        path = os.path.join(VERIF, 'evidence', f'replay_{prop.id}_{r["part"]}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop.id, 'part': r['part'], 'message': msg, 'case': json.loads(key)}, f, indent=1)
        print(f'{prop.id}/{r["part"]}: {msg[:1500]}')
        print(f'  case: {key[:800]}')
        print(f'VIOLATION property={prop.id} replay={path}')
        ev['violations'] += 1
        code = 1
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', f'{prop.id}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for r in harness:
        print(f'HARNESS ERROR in {prop.id}/{r["part"]}:\n{r["harness"]}', file=sys.stderr)
    if harness and code == 0:
        code = 3
    slow = sorted(cov['parts'].items(), key=lambda kv: -kv[1]['wall_s'])[:3]
    print(f"{prop.id} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['violations']} violation(s), {ev['wall_s']} s; slowest: " + ', '.join(f"{k} {v['wall_s']}s" for k, v in slow))
    return code


_JOBS = []


def _byindex(i):
    return _worker(_JOBS[i])


def _inproc(j):
    keep = sys.stdout
    try:
        return _worker(j)
    finally:
        sys.stdout = keep


def _seed(seed, name, chunk):
    return (seed * 1000003 + zlib.crc32(name.encode()) + chunk * 7919) & 0x7FFFFFFF


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    part = next(p for p in prop.parts if p.name == d['part'])
    keep = sys.stdout
    sys.stdout = _Null()
    tmp = tempfile.mkdtemp(prefix='pbt_')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        nt, bad = run_case(part, d['case'])
    finally:
        sys.stdout = keep
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    if bad is None:
        print(f'{prop.id}/{part.name}: held on {path}')
        return 0
    if bad[0] == 'harness':
        print(bad[1], file=sys.stderr)
        return 3
    print(f'{prop.id}/{part.name}: {bad[1]}')
    print(f'VIOLATION property={prop.id} replay={path}')
    return 1

