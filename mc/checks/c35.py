"""C35: the date grid of FX exposures holds the curve date, every sampled date, the last delivery and the asked days of value of every delivery."""
import itertools, warnings
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.utils import create_date_grid_for_fx_exposures as mk
from mc.ref.sched import Cal, roll, add_months

BOUNDS = {
    'quick': 'every curve date of 14 months around a leap day x 6 sampling frequencies x 9 deliveries up to 800 days ahead; every subset of 6 deliveries around month ends x 6 frequencies and 3 pillar grids x every combination of the 3 flags; '
             'every order of up to 4 deliveries x 7 containers; curve and delivery dates on weekends; 8 invalid requests',
    'thorough': 'every curve date of 4 years, every subset of 9 deliveries, every order of 6'}
ASSUMPTIONS = ['deliveries are after the curve date', 'sampled dates fall on weekdays, modified following (the schedule default); the curve date and the last delivery are kept as given',
               'asked for both the last day of value and the day after, the grid holds at least the last day of value']
FREQ = {'1d': ('d', 1), '1w': ('d', 7), '1m': ('m', 1), '3m': ('m', 3), '6m': ('m', 6), '12m': ('m', 12)}
WK = Cal('1111100', [])
ts = pd.Timestamp


def units(tier):
    q = tier == 'quick'
    months = [(2023 + i // 12, i % 12 + 1) for i in (range(8, 22) if q else range(48))]
    u = [dict(kind='start', y=y, m=m) for y, m in months]
    u += [dict(kind='subset', n=6 if q else 9, freq=f, start=s) for f in [*FREQ, 'p1', 'p2', 'p3'] for s in ('2024-01-31', '2023-06-30', '2023-11-25')]
    return u + [dict(kind='form', n=4 if q else 6), dict(kind='reject')]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def sampled(start, end, freq):
    """curve date, curve date + k periods rolled onto weekdays, the end"""
    kind, n = FREQ[freq]
    out, k = {start, end}, 1
    while True:
        raw = start + timedelta(n * k) if kind == 'd' else add_months(start, n * k)
        d = roll(raw, 'MODIFIED_FOLLOWING', WK)
        if raw >= end or d >= end:
            return out
        if d > start:
            out.add(d)
        k += 1


def pillars(kind, start):
    return [start + timedelta(x) for x in {'p1': (0, 30, 60, 90), 'p2': (0, 1, 400), 'p3': (45,)}[kind]]


def want(start, dels, freq, pay, last, after):
    g = set(pillars(freq, start)) if freq[0] == 'p' else sampled(start, max(dels), freq)
    if last:
        g |= {d if pay else d - timedelta(1) for d in dels}
    elif after:
        g |= {d + timedelta(1) if pay else d for d in dels}
    return sorted(g)


def ask(start, dels, freq, pay=False, last=False, after=False, form=None):
    x = (form or (lambda v: np.array(v, dtype='datetime64[ns]')))(dels)
    kw = dict(date_grid_pillar=pd.DatetimeIndex(pillars(freq, start))) if freq[0] == 'p' else dict(sampling_freq=freq)
    return [d.date() for d in mk(ts(start), x, payments_on_value_date_have_value=pay, include_last_day_of_value=last, include_day_after_last_day_of_value=after, **kw)]


def compare(got, w, both, case, rec):
    rec.trace()
    rec.outcome(tuple(w))
    if both:   # at least the first option, at most both of them
        rec.check(set(w) <= set(got) and got == sorted(set(got)), 'grid', case, lambda: 'missing %r in %r' % (sorted(set(w) - set(got)), got))
    else:
        rec.check(got == w, 'grid', case, lambda: 'not wanted %r missing %r in order %r' % (sorted(set(got) - set(w)), sorted(set(w) - set(got)), got == sorted(got)))


def do_start(u, rec):
    d = date(u['y'], u['m'], 1)
    while d.month == u['m']:
        for f in FREQ:
            for n in (1, 2, 7, 29, 31, 92, 182, 366, 800):
                case = dict(curve=d, delivery=d + timedelta(n), freq=f)
                rec.state(repr(case))
                ok, g = rec.call('raises', case, ask, d, [d + timedelta(n)], f)
                if ok:
                    compare(g, want(d, [d + timedelta(n)], f, False, False, False), False, case, rec)
        d += timedelta(1)


def do_subset(u, rec):
    s = date.fromisoformat(u['start'])
    pool = [s + timedelta(x) for x in (1, 2, 29, 31, 90, 367, 60, 182, 250)][:u['n']]
    for n in range(1, len(pool) + 1):
        for dels in itertools.combinations(pool, n):
            for pay, last, after in itertools.product((False, True), repeat=3):
                case = dict(curve=s, deliveries=dels, freq=u['freq'], pay=pay, last=last, after=after)
                rec.state(repr(case))
                rec.step()
                ok, g = rec.call('raises', case, ask, s, list(dels), u['freq'], pay, last, after)
                if ok:
                    compare(g, want(s, dels, u['freq'], pay, last, after), last and after, case, rec)


def do_form(u, rec):
    s = date(2024, 1, 31)
    pool = [s + timedelta(x) for x in (40, 3, 180, 29, 30, 100)][:u['n']]
    forms = {'array': None, 'index': lambda v: pd.DatetimeIndex(v), 'list': lambda v: [ts(x) for x in v], 'series': lambda v: pd.Series(pd.DatetimeIndex(v)), 'days': lambda v: np.array(v, dtype='datetime64[D]'),
             'objects': lambda v: np.array([ts(x) for x in v], dtype=object), 'duplicated': lambda v: np.array(list(v) + list(v)[::-1], dtype='datetime64[ns]')}
    for n in range(1, len(pool) + 1):
        for dels in itertools.permutations(pool, n):
            for name, form in forms.items():
                for f, (last, after) in itertools.product(('1m', '1w', 'p1'), ((False, False), (True, False), (False, True))):
                    case = dict(curve=s, deliveries=dels, form=name, freq=f, last=last, after=after)
                    rec.state(repr(case))
                    x = form(dels) if form else np.array(dels, dtype='datetime64[ns]')
                    keep = x.copy()
                    ok, g = rec.call('raises', case, ask, s, dels, f, False, last, after, lambda v: x)
                    if ok:
                        compare(g, want(s, dels, f, False, last, after), False, case, rec)
                    rec.check(list(x) == list(keep), 'mutated', case, 'the delivery dates given were modified')


def do_reject(u, rec):
    s, d = ts('2024-01-31'), np.array(['2024-04-30'], dtype='datetime64[ns]')
    cases = {'neither': lambda: mk(s, d), 'unknown frequency': lambda: mk(s, d, sampling_freq='2m'), 'unknown spelling': lambda: mk(s, d, sampling_freq='daily'), 'empty frequency': lambda: mk(s, d, sampling_freq=''),
             'a list of pillars': lambda: mk(s, d, date_grid_pillar=[s]), 'one date as pillars': lambda: mk(s, d, date_grid_pillar=s), 'no deliveries': lambda: mk(s, d[:0], sampling_freq='1m'),
             'all deliveries past': lambda: mk(s, np.array(['2023-12-29'], dtype='datetime64[ns]'), sampling_freq='1m')}
    for name, f in cases.items():
        rec.step()
        rec.state(name)
        try:
            r = f()
            rec.fail('accepted', dict(case=name), 'no error: %r' % (r,))
        except Exception:
            rec.outcome(name)
