"""Small exhaustive-exploration runner.

A check module (mc/checks/cNN.py) provides
    units(tier)        -> list of JSON-able dicts, simplest first; together they enumerate the whole bounded space
    run_unit(u, rec)   -> explores every case of that unit on the real code, reporting through `rec`
    BOUNDS             -> dict tier -> text describing alphabet and bounds
    warmup() (opt.)    -> compile/import things once before forking
Every unit is deterministic, so a unit is a replayable artefact.
"""
import hashlib, json, multiprocessing as mp, os, signal, sys, time, traceback

VERIF = os.environ.get('VERIF_DIR', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def jsonable(x):
    import numpy as np, pandas as pd, datetime, enum
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if x == x and abs(x) != float('inf') else repr(float(x))
    if isinstance(x, (pd.Timestamp, datetime.date, datetime.datetime, np.datetime64)):
        return str(x)[:19]
    if isinstance(x, (np.ndarray, pd.Series, pd.Index)):
        return [jsonable(v) for v in list(x)[:200]]
    if x is None or isinstance(x, (int, str, bool)):
        return x
    return repr(x)


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


class Rec:
    """Collects what one unit explored.  All counts are measured."""
    MAX_FAILS = 40

    def __init__(self, unit, known=()):
        self.unit = unit
        self.known = list(known)
        self.seen_known = {}
        self.states = set()        # hashes of distinct states / inputs
        self.bulk_states = 0       # states counted in bulk (already distinct by construction)
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.nfails = 0
        self.samples = []

    def state(self, *key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def fail(self, kind, case, msg):
        f = dict(kind=kind, case=jsonable(case), msg=str(msg)[:600])
        for k in self.known:
            if matches(k, f):
                self.seen_known[k['what']] = self.seen_known.get(k['what'], 0) + 1
                return
        self.nfails += 1
        if len(self.fails) < self.MAX_FAILS or not any(f['kind'] == kind for f in self.fails):
            self.fails.append(f)

    def check(self, ok, kind, case, msg=''):
        if not ok:
            self.fail(kind, case, msg() if callable(msg) else msg)
        return bool(ok)

    def call(self, kind, case, fn, *a, **k):
        """Call code under test where the property says it must return.  (ok, value)."""
        self.transitions += 1
        try:
            return True, fn(*a, **k)
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            at = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else '?'
            self.fail(kind, case, 'raised %s: %s at %s' % (type(e).__name__, str(e)[:200], at))
            return False, None


_mod = None
_known = []


def _init(modname, known):
    global _mod, _known
    import importlib, warnings
    warnings.simplefilter('ignore')
    _mod = importlib.import_module(modname)
    _known = known


class UnitTimeout(Exception):
    pass


def _alarm(*a):
    raise UnitTimeout()


def _work(args):
    i, unit, limit = args
    rec = Rec(unit, _known)
    t0 = time.time()
    import warnings
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')     # the code under test prints
    try:
        _mod.run_unit(unit, rec)
    except UnitTimeout:
        rec.fail('no_termination', dict(unit=unit), 'unit did not finish within %d s' % limit)
    except Exception as e:
        rec.fail('unexpected_exception', dict(unit=unit), ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    finally:
        signal.alarm(0)
        sys.stdout = out
    return i, rec, time.time() - t0


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == prop]


def matches(k, f):
    if k['kind'] != f['kind']:
        return False
    case = f['case']
    for key, want in k.get('match', {}).items():
        if not isinstance(case, dict) or key not in case:
            return False
        got = case[key]
        if isinstance(want, list) and not isinstance(got, list):
            if got not in want:
                return False
        elif got != want:
            return False
    if 'msg_contains' in k and k['msg_contains'] not in f['msg']:
        return False
    return True


def run(prop, tier, replay=None):
    import importlib
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'mc.checks.%s' % prop.lower()
    nproc = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
    unit_limit = 300 if tier == 'quick' else 3600
    evpath = os.path.join(VERIF, 'evidence', prop + '.json')

    def violation(f, unit, n):
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (prop, n))
        with open(p, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, unit=unit, kind=f['kind'], case=f['case'], message=f['msg'],
                           how='bash run.sh %s --replay %s' % (prop, p)), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  kind=%s case=%s' % (f['kind'], json.dumps(f['case'])[:600]))
        print('  %s' % f['msg'])

    try:
        mod = importlib.import_module(modname)
        if hasattr(mod, 'warmup'):
            mod.warmup()
    except Exception as e:
        f = dict(kind='import', case=dict(module=modname), msg=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        violation(f, None, 1)
        with open(evpath, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking',
                           coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=['import failed']),
                           wall_s=round(time.time() - t0, 2), violations=1), fh, indent=1)
        return 1

    if replay:
        with open(replay) as fh:
            r = json.load(fh)
        units = [r['unit']] if r.get('unit') is not None else mod.units(tier)
    else:
        units = mod.units(tier)
    known = load_known(prop)
    recs = [None] * len(units)
    times = [0.0] * len(units)
    _init(modname, known)
    jobs = [(i, u, unit_limit) for i, u in enumerate(units)]
    if len(units) == 1 or nproc == 1:
        results = map(_work, jobs)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(nproc, maxtasksperchild=None)
        results = pool.imap_unordered(_work, jobs, chunksize=1)
    for i, rec, dt in results:
        recs[i] = rec
        times[i] = dt
    if pool:
        pool.close()
        pool.join()

    states, bulk, trans, traces, outcomes, samples = set(), 0, 0, 0, set(), []
    new, seen_known, nfail = [], {}, 0
    for u, rec in zip(units, recs):
        states |= rec.states
        bulk += rec.bulk_states
        trans += rec.transitions
        traces += rec.traces
        outcomes |= rec.outcomes
        if rec.samples and len(samples) < 6:
            samples.append(dict(unit=jsonable(u), case=rec.samples[0]))
        nfail += rec.nfails
        for what, c in rec.seen_known.items():
            seen_known[what] = seen_known.get(what, 0) + c
        rec.known = None
        for f in rec.fails:
            new.append((f, u))
    for what in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    shown, n = {}, 0
    for f, u in new:
        if shown.get(f['kind'], 0) < 1 and n < 8:
            shown[f['kind']] = 1
            n += 1
            violation(f, u, n)
    cov = dict(states=len(states) + bulk, transitions=trans, traces_validated_against_impl=traces,
               samples=samples or ['(none)'], distinct_outcomes=len(outcomes), exhaustive=True,
               units=len(units), bounds=mod.BOUNDS.get(tier, mod.BOUNDS.get('quick')),
               slowest_unit_s=round(max(times), 2) if times else 0)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(new), known_findings=list(seen_known))
    if not replay:
        with open(evpath, 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d units=%d slowest=%.1fs wall=%.1fs violations=%d known=%d'
          % (prop, tier, cov['states'], trans, traces, len(outcomes), len(units), cov['slowest_unit_s'], ev['wall_s'], len(new), len(seen_known)))
    return 1 if new else 0
