"""C16: historical coupon rates: RFR compounding / averaging over exactly the days of the period, term fixings as of the fixing date."""
import itertools
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
from frm.enums import DayCountBasis, RFRFixingCalcMethod
from mc.ref.fixings import History, bd, D

H = History(D(2023, 12, 4), D(2024, 2, 16), closed={D(2024, 1, d) for d in range(8, 13)})
BOUNDS = {
    'quick': 'fixing history of 75 days with weekends, 4 holidays and a week-long closure, 3 row orders, 2 day counts; every period [s,e) inside 2023-12-01..2024-01-20 x 3 rate methods; every period running over either end of the history '
             'within 8 days; every ordered triple of 7 periods as a vector; every triple of 8 periods of which at least one is not covered; term fixings for every ordered list of length <= 4 over 9 dates',
    'thorough': 'every period inside 2023-12-01..2024-02-20 x every row order; every ordered triple of 12 periods'}
ASSUMPTIONS = ['the simple average of a period without any fixing is unspecified', 'term fixing history is sorted by date', 'whether a period ending on a holiday after the last fixing is available is unspecified']
METHODS = [m for m in RFRFixingCalcMethod]
ORDERS = ['sorted', 'reversed', 'rotated']


def units(tier):
    n = 50 if tier == 'quick' else 80
    u = [dict(kind='pair', basis=b, order=o, start=i, n=n, tier=tier) for i in range(0, n, 10) for b in ('ACT_360', 'ACT_365') for o in (ORDERS if tier != 'quick' or i == 20 else ORDERS[2:])]
    u += [dict(kind='vector', basis=b, tier=tier) for b in ('ACT_360', 'ACT_365')]
    return u + [dict(kind='term', tier=tier), dict(kind='reject', tier=tier)]


def T(d):
    return pd.DatetimeIndex([pd.Timestamp(x) for x in (d if isinstance(d, list) else [d])])


def run_unit(u, rec):
    k = u['kind']
    if k == 'pair':
        src = H.frame(u['order'])
        keep = src.copy()
        f = RFRFixings(fixings=src, day_count_basis=DayCountBasis[u['basis']])
        day0 = D(2023, 12, 1)
        for i in range(u['start'], u['start'] + 10):
            for j in range(i + 1, u['n'] + 1):
                pair(rec, f, day0 + timedelta(i), day0 + timedelta(j), u)
        if u['start'] == 0:
            for a in range(-8, 9):
                for b in range(a + 1, 9):
                    pair(rec, f, H.last + timedelta(a), H.last + timedelta(b), u)
                    pair(rec, f, H.first + timedelta(a), H.first + timedelta(b), u)
        rec.check(src.equals(keep), 'mutated', dict(unit=u), 'fixings modified')
    elif k == 'vector':
        f = RFRFixings(fixings=H.frame('rotated'), day_count_basis=DayCountBasis[u['basis']])
        ds = [D(2023, 12, 4), D(2023, 12, 8), D(2023, 12, 9), D(2023, 12, 18), D(2023, 12, 26), D(2024, 1, 1), D(2024, 1, 15), D(2024, 1, 27), D(2024, 2, 12)]
        P = [(0, 1), (1, 3), (2, 4), (3, 6), (5, 7), (4, 8), (0, 8), (6, 8), (1, 2), (3, 4), (7, 8), (5, 6)][:7 if u['tier'] == 'quick' else 12]
        P = [(ds[a], ds[b]) for a, b in P]
        for m in METHODS:
            for p in itertools.product(P, repeat=3):
                case = dict(periods=[[str(a), str(b)] for a, b in p], method=m.name, basis=u['basis'])
                w = [H.rate(s, e, m.name, u['basis']) for s, e in p]
                rec.state(repr(case))
                if None in w:
                    continue
                ok, g = rec.call('raises', case, f.get_coupon_rates, T([a for a, _ in p]), T([b for _, b in p]), m)
                if ok:
                    rec.trace()
                    rec.check(np.shape(g) == (3,) and np.allclose(g, w, rtol=1e-10, atol=1e-12), 'vector', case, lambda: 'got %s want %s' % (g, w))
        # one period the history does not cover spoils the whole request, wherever it stands
        bad = [(H.first - timedelta(3), H.first + timedelta(9)), (H.first - timedelta(30), H.first - timedelta(9)), (H.last - timedelta(7), H.last + timedelta(6)), (H.last + timedelta(10), H.last + timedelta(20))]
        for m in METHODS:
            for p in itertools.product(P[:4 if u['tier'] == 'quick' else 7] + bad, repeat=3):
                if any(x in bad for x in p):
                    rec.step()
                    case = dict(periods=[[str(a), str(b)] for a, b in p], method=m.name, basis=u['basis'])
                    rec.state(repr(case))
                    try:
                        g = f.get_coupon_rates(T([a for a, _ in p]), T([b for _, b in p]), m)
                        rec.fail('beyond_history', case, 'returned %s although fixings are missing' % g)
                    except ValueError:
                        rec.outcome('rejected')
    elif k == 'term':
        src = H.frame()
        f = TermFixings(fixings=src, day_count_basis=DayCountBasis.ACT_365)
        A = [D(2023, 12, 1), D(2023, 12, 4), D(2023, 12, 9), D(2023, 12, 26), D(2023, 12, 27), D(2024, 1, 1), D(2024, 1, 31), D(2024, 2, 16), D(2024, 3, 1)]
        for l in range(1, 5):
            for p in itertools.product(A, repeat=l):
                case = dict(dates=[str(d) for d in p])
                rec.state(repr(case))
                ok, g = rec.call('raises', case, f.index_historical_fixings, T(list(p)))
                if ok:
                    w = np.array([np.nan if H.on(d) is None else H.on(d) for d in p])
                    rec.trace()
                    rec.check(np.shape(g) == w.shape and np.array_equal(g, w, equal_nan=True), 'term_fixing', case, lambda: 'got %s want %s' % (g, w))
                    rec.outcome(tuple(w))
        for d in [A[0] + timedelta(i) for i in range(100)]:
            ok, g = rec.call('raises', dict(date=str(d)), f.index_historical_fixings, T(d))
            rec.state(str(d))
            w = H.on(d)
            rec.check(ok and ((g[0] != g[0]) if w is None else g[0] == w), 'term_fixing', dict(date=str(d)), lambda: 'got %s want %s' % (g, w))
    else:
        good = H.frame()
        for cls in (RFRFixings, TermFixings):
            for bad in (good.rename(columns={'fixing': 'rate'}), good[['date']], good.assign(extra=1)):
                rec.step()
                rec.state(cls.__name__, tuple(bad.columns))
                try:
                    cls(fixings=bad, day_count_basis=DayCountBasis.ACT_360)
                    rec.fail('bad_columns', dict(cls=cls.__name__, columns=list(bad.columns)), 'accepted')
                except (AssertionError, ValueError):
                    pass
            rec.step()
            try:
                cls(fixings=good, day_count_basis='ACT/360')
                rec.fail('bad_basis', dict(cls=cls.__name__), 'string day count accepted')
            except (AssertionError, ValueError):
                pass
    rec.sample(u)


def pair(rec, f, s, e, u):
    for m in METHODS:
        case = dict(start=str(s), end=str(e), method=m.name, basis=u['basis'], order=u['order'])
        rec.state(repr(case))
        w = H.rate(s, e, m.name, u['basis'])
        lastobs = e - timedelta(1)
        while lastobs.weekday() > 4:
            lastobs -= timedelta(1)
        if s < H.first or lastobs > H.last:
            rec.step()
            try:
                g = f.get_coupon_rates(T(s), T(e), m)
                rec.fail('beyond_history', case, 'returned %s although fixings are missing' % g)
            except ValueError:
                rec.outcome('rejected')
            continue
        if w is None:
            continue
        ok, g = rec.call('raises', case, f.get_coupon_rates, T(s), T(e), m)
        if ok:
            rec.trace()
            rec.check(np.shape(g) == (1,) and abs(g[0] - w) <= 1e-11, 'coupon_rate', case, lambda: 'got %s want %r' % (g, w))
            rec.outcome(round(w, 9))
