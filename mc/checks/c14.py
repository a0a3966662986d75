"""C14: forward rates are arbitrage free and averages are over exactly the days of the period."""
import itertools, math
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import DayCountBasis, TermRate, RFRFixingCalcMethod, ZeroCurveInterpMethod
from mc.ref.curves import RefCurve, LIN, SPLN, SPLZ
from mc.ref.dates import ref_years
from mc.checks.c03 import CALS

D = date
CD = D(2023, 12, 20)
OFF = [20, 95, 200, 400]
RATES = [0.03, 0.035, 0.032, 0.04]
BOUNDS = {
    'quick': '3 interpolation methods x 4 day counts x 3 calendars; every ordered date pair of a 13-date alphabet (weekends, holidays, curve date, adjacent days, last pillar) x 5 forward rate types; every vector of '
             '2 periods (all ordered pairs of 12 periods) and selected vectors of 3, vs the scalar answers; chaining of adjacent periods; instantaneous forwards on a 40-point grid',
    'thorough': 'every date pair within 60 days, vectors of 3 periods over 12 periods'}
ASSUMPTIONS = ['average rates are not defined for ACT/ACT (no days-per-year)', 'periods have positive length']
A = [CD, CD + timedelta(1), D(2023, 12, 22), D(2023, 12, 23), D(2023, 12, 25), D(2023, 12, 27), D(2024, 1, 1), D(2024, 1, 9), D(2024, 2, 1), D(2024, 2, 29), D(2024, 3, 30), D(2024, 7, 8), CD + timedelta(400)]
BASES = ['ACT_365', 'ACT_360', 'ACT_ACT', '_30E_360']
TYPES = [TermRate.SIMPLE, TermRate.CONTINUOUS, TermRate.ANNUAL, RFRFixingCalcMethod.DAILY_COMPOUNDED, RFRFixingCalcMethod.WEIGHTED_AVERAGE, RFRFixingCalcMethod.SIMPLE_AVERAGE]
DPY = {'ACT_365': 365, 'ACT_360': 360, '_30E_360': 360}


def units(tier):
    return [dict(interp=m, basis=b, cal=c, tier=tier) for m in (LIN, SPLN, SPLZ) for b in BASES for c in CALS]


def run_unit(u, rec):
    m, basis, cn = u['interp'], u['basis'], u['cal']
    cal = CALS[cn]
    dates = [CD + timedelta(o) for o in OFF]
    dfs = [math.exp(-r * o / 365) for r, o in zip(RATES, OFF)]
    ref = RefCurve(CD, dates, dfs, basis, m)
    z = ZeroCurve(curve_date=pd.Timestamp(CD), pillar_df=pd.DataFrame({'date': [pd.Timestamp(d) for d in dates], 'discount_factor': dfs}), day_count_basis=DayCountBasis[basis], cal=cal.np(),
                  interp_method=ZeroCurveInterpMethod[m])
    T = pd.Timestamp
    memo = {}
    DF = {CD + timedelta(i): ref.df(CD + timedelta(i)) for i in range(401)}

    def want(s, e, ty):
        key = (s, e, ty)
        if key not in memo:
            yf = ref_years(basis, s, e)
            g = DF[s] / DF[e]
            if ty in (TermRate.SIMPLE, RFRFixingCalcMethod.DAILY_COMPOUNDED):
                w = (g - 1) / yf if yf else None
            elif ty == TermRate.CONTINUOUS:
                w = math.log(g) / yf if yf else None
            elif ty == TermRate.ANNUAL:
                w = g ** (1 / yf) - 1 if yf else None
            elif basis == 'ACT_ACT':
                w = None
            else:
                days = [s + timedelta(i) for i in range((e - s).days)]
                if ty == RFRFixingCalcMethod.SIMPLE_AVERAGE:
                    days = [d for d in days if cal.bd(d)]
                w = sum((DF[d] / DF[d + timedelta(1)] - 1) * DPY[basis] for d in days) / len(days) if days else None
            memo[key] = w
        return memo[key]

    pairs = [(a, b) for a in A for b in A if a < b]
    if u['tier'] != 'quick':
        days = [CD + timedelta(i) for i in range(61)]
        pairs += [(a, b) for a in days for b in days if a < b]
    base = dict(interp=m, basis=basis, cal=cn)
    for (s, e), ty in itertools.product(pairs, TYPES):
        w = want(s, e, ty)
        if w is None:
            continue
        case = dict(base, start=str(s), end=str(e), type=ty.name)
        rec.state(*map(str, case.values()), str(type(ty)))
        ok, g = rec.call('raises', case, z.get_forward_rates, T(s), T(e), ty)
        if ok:
            rec.trace()
            g = np.asarray(g, float)
            rec.check(g.shape == (1,) and abs(g[0] - w) <= 1e-8 * max(abs(w), 0.01), 'forward_rate', case, lambda: 'got %s want %r' % (g, w))
            rec.outcome(round(w, 8))
    rec.sample(case)
    # vectors of periods: every order, overlaps, repeats
    P = [(A[i], A[j]) for i, j in ((0, 2), (0, 12), (1, 2), (2, 4), (3, 5), (4, 8), (6, 7), (7, 9), (8, 9), (9, 11), (10, 12), (5, 6))]
    combos = list(itertools.product(P, P)) + [p for p in itertools.product(P[::2], P[1::3], P[::4])]
    if u['tier'] != 'quick':
        combos += list(itertools.product(P, P, P))
    for ty in TYPES:
        for i, p in enumerate(combos):
            w = [want(s, e, ty) for s, e in p]
            if any(x is None for x in w):
                continue
            S, E = [T(s) for s, _ in p], [T(e) for _, e in p]
            mk = (pd.DatetimeIndex, pd.Series, lambda x: pd.Series(x, index=range(5, 5 + len(x))))[i % 3]
            case = dict(base, periods=[[str(a), str(b)] for a, b in p], type=ty.name, form=i % 3)
            rec.state(repr(case))
            ok, g = rec.call('raises', case, z.get_forward_rates, mk(S), mk(E), ty)
            if ok:
                rec.trace()
                g = np.asarray(g, float)
                rec.check(g.shape == (len(w),) and np.allclose(g, w, rtol=1e-8, atol=1e-10), 'forward_vector', case, lambda: 'got %s want %s' % (g, w))
    # instantaneous forwards
    for i in range(1, 40):
        t = ref.t[-1] * i / 40
        if m == LIN and any(abs(t - x) < 1e-9 for x in ref.t):
            continue
        case = dict(base, years=t)
        rec.state(repr(case))
        ok, g = rec.call('raises', case, z.get_instantaneous_forward_rate, t)
        if ok:
            w = ref.inst_fwd(t)
            rec.trace()
            rec.check(abs(float(np.asarray(g).ravel()[0]) - w) <= 1e-9, 'instantaneous', case, lambda: 'got %r want %r' % (g, w))
    ts = [ref.t[-1] * i / 40 + 1e-4 for i in (31, 3, 12, 3)]
    ok, g = rec.call('raises', dict(base, years=ts), z.get_instantaneous_forward_rate, np.array(ts))
    rec.check(ok and np.allclose(g, [ref.inst_fwd(t) for t in ts], atol=1e-9), 'instantaneous', dict(base, years=ts), lambda: str(g))
    # impossible periods are rejected
    for s, e in ((A[3], A[2]), (CD - timedelta(3), A[3])):
        rec.step()
        try:
            g = z.get_forward_rates(T(s), T(e), TermRate.SIMPLE)
            rec.fail('impossible_period', dict(base, start=str(s), end=str(e)), 'returned %s' % g)
        except Exception:
            pass
