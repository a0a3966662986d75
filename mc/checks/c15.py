"""C15: the same market data in any documented form builds the same curve; inputs are left alone."""
import itertools, math
from datetime import date, timedelta
import numpy as np, pandas as pd
from scipy.interpolate import CubicSpline
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import DayCountBasis, CompoundingFreq, ZeroCurveInterpMethod
from mc.ref.sched import add_months, follow
from mc.ref.dates import ref_years
from mc.ref.curves import RefCurve, LIN, SPLN, SPLZ
from mc.checks.c03 import CALS
from mc.checks.c12 import ref_df

D = date
BOUNDS = {
    'quick': '2 curve dates x 3 interpolation methods x 3 day counts x 4 x-axis forms (tenor, date, days, years) x 9 y forms (discount factor, zero rate in 8 compoundings) x row orders (all 24 for one form, 3 otherwise) x '
             'with/without a curve-date pillar x 3 calendars for tenors x 4 tenor spellings; each curve compared with the reference on 25 dates and with the input frame before/after; the same for pillars from overnight to fifty years; malformed frames rejected',
    'thorough': 'all 120 row orders for every form, 5 day counts'}
ASSUMPTIONS = ['tenor pillars roll following on the curve calendar']
TEN = [('1m', 1), ('3m', 3), ('6m', 6), ('1y', 12), ('2y', 24)]
SPELL = {'canon': lambda t: t, 'upper': str.upper, 'long': lambda t: t[:-1] + {'m': ' months', 'y': ' years'}[t[-1]], 'mon': lambda t: t[:-1] + {'m': 'Mon', 'y': 'yr'}[t[-1]]}
RATE = [0.031, 0.029, 0.034, 0.038, 0.036]
CDS = [D(2024, 1, 31), D(2023, 12, 29)]
YF = ['discount_factor'] + [f.name for f in CompoundingFreq]


def units(tier):
    bs = ['ACT_365', 'ACT_360', 'ACT_ACT'] + (['_30E_360', 'ACT_366'] if tier != 'quick' else [])
    return [dict(cd=str(cd), interp=m, basis=b, tier=tier) for cd in CDS for m in (LIN, SPLN, SPLZ) for b in bs] + [dict(cd=str(CDS[0]), interp=LIN, basis='ACT_365', tier=tier, malformed=True)] + \
        [dict(cd=str(cd), interp=m, basis=b, tier=tier, wide=True) for cd in CDS for m in (LIN, SPLN, SPLZ) for b in bs]


def zero(f, df, t):
    if f == 'CONTINUOUS':
        return -math.log(df) / t
    if f == 'SIMPLE':
        return (1 / df - 1) / t
    m = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}[f]
    return m * (df ** (-1 / (m * t)) - 1)


def zero_spline(t, dfs, z0, f, tq):
    n = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}.get(f)
    c0 = n * math.log(1 + z0 / n) if n else z0
    s = CubicSpline([0.0] + list(t), [c0] + [-math.log(b) / a for a, b in zip(t, dfs)], bc_type='not-a-knot')
    return np.array([math.exp(-float(s(x)) * x) for x in tq])


def run_unit(u, rec):
    cd, m, basis = date.fromisoformat(u['cd']), u['interp'], u['basis']
    if u.get('malformed'):
        return malformed(rec, cd)
    if u.get('wide'):
        return wide(u, rec)
    perms_all = list(itertools.permutations(range(5)))
    few = [perms_all[0], perms_all[-1], perms_all[37]]
    for cn, spn in itertools.product(CALS, SPELL):
        cal = CALS[cn]
        dates = [follow(add_months(cd, n), cal) for _, n in TEN]
        t = [ref_years(basis, cd, d) for d in dates]
        dfs = [math.exp(-r * ref_years('ACT_365', cd, d)) for r, d in zip(RATE, dates)]
        ref = RefCurve(cd, dates, dfs, basis, m)
        q = sorted({cd + timedelta(1), *dates, *[d - timedelta(1) for d in dates], *[cd + (dates[-1] - cd) * i // 15 for i in range(1, 15)]})
        want0 = np.array([ref.df(d) for d in q])
        for x in ('tenor', 'date', 'days', 'years'):
            if x != 'tenor' and spn != 'canon':
                continue
            for y in YF:
                for withzero in (False, True):
                    if x == 'tenor' and withzero:
                        continue
                    orders = (perms_all if (y == 'discount_factor' and not withzero and cn == 'monfri' and spn == 'canon') or (u['tier'] != 'quick' and cn == 'monfri') else few)
                    if u['tier'] == 'quick' and x not in ('date', 'years') and len(orders) > 3:
                        orders = orders[::5]
                    for o, typed in [(o, True) for o in orders] + [(few[1], False), (few[2], False)]:
                        xs = {'tenor': [SPELL[spn](TEN[i][0]) for i in o], 'date': [pd.Timestamp(dates[i]) for i in o], 'days': [(dates[i] - cd).days for i in o], 'years': [t[i] for i in o]}[x]
                        ys = [dfs[i] if y == 'discount_factor' else zero(y, dfs[i], t[i]) for i in o]
                        if withzero:
                            k = 2
                            xs = xs[:k] + [{'date': pd.Timestamp(cd), 'days': 0, 'years': 0.0}[x]] + xs[k:]
                            ys = ys[:k] + [1.0 if y == 'discount_factor' else 0.03] + ys[k:]
                        frame = pd.DataFrame({x: xs, 'discount_factor' if y == 'discount_factor' else 'zero_rate': ys}, index=range(3, 3 + len(xs)))
                        if not typed:       # a column that shares its frame with text often has no numeric type
                            frame['discount_factor' if y == 'discount_factor' else 'zero_rate'] = frame.iloc[:, 1].astype(object)
                            if x == 'years':
                                frame['years'] = frame['years'].astype(object)
                        keep = frame.copy()
                        case = dict(cd=str(cd), typed=typed, interp=m, basis=basis, cal=cn, x=x, y=y, spelling=spn, order=list(o), curve_date_pillar=withzero)
                        rec.state(repr(case))
                        kw = {} if y == 'discount_factor' else dict(compounding_freq=CompoundingFreq[y])
                        ok, z = rec.call('raises', case, ZeroCurve, curve_date=pd.Timestamp(cd), pillar_df=frame, day_count_basis=DayCountBasis[basis], cal=cal.np(), interp_method=ZeroCurveInterpMethod[m], **kw)
                        if not ok:
                            continue
                        rec.check(frame.equals(keep), 'input_mutated', case, lambda: 'pillar_df became\n%s' % frame)
                        ok, g = rec.call('raises', case, z.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in q]))
                        if ok:
                            rec.trace()
                            want = want0
                            if withzero and y != 'discount_factor' and m == SPLZ:        # the given zero rate at the curve date is a point of the spline on rates
                                want = zero_spline(t, dfs, 0.03, y, [ref.years(d) for d in q])
                            good = np.allclose(g, want, rtol=1e-10, atol=0)
                            rec.check(good, 'curve_differs', case, lambda: 'at %s got %r want %r' % next((str(a), b, c) for a, b, c in zip(q, g, want) if not abs(b - c) <= 1e-10))
                            rec.outcome(tuple(round(float(v), 6) for v in g[:3]))
    rec.sample(case)


WIDE = [('on', 1), ('1w', 7), ('1m', None), ('12y', None), ('1y6m', None), ('30y', None), ('50y', None)]


def wide(u, rec):
    """pillars from overnight to fifty years, in every x form and y form"""
    cd, m, basis = date.fromisoformat(u['cd']), u['interp'], u['basis']
    cal = CALS['monfri']
    months = {'1m': 1, '12y': 144, '1y6m': 18, '30y': 360, '50y': 600}
    pil = sorted((follow(cd + timedelta(n) if n else add_months(cd, months[k]), cal), k) for k, n in WIDE)
    dates, names = [d for d, _ in pil], [k for _, k in pil]
    t = [ref_years(basis, cd, d) for d in dates]
    dfs = [math.exp(-r * ref_years('ACT_365', cd, d)) for r, d in zip(RATE + [.033, .03], dates)]
    ref = RefCurve(cd, dates, dfs, basis, m)
    q = sorted({*dates, *[cd + (dates[-1] - cd) * i // 31 for i in range(1, 31)]})
    want = np.array([ref.df(d) for d in q])
    cz = np.array([-ref.ln(ref.years(d)) / ref.years(d) for d in q])
    for x, y, rev in itertools.product(('tenor', 'date', 'days', 'years'), YF, (False, True)):
        o = list(range(len(dates)))[::-1 if rev else 1]
        xs = {'tenor': [names[i] for i in o], 'date': [pd.Timestamp(dates[i]) for i in o], 'days': [(dates[i] - cd).days for i in o], 'years': [t[i] for i in o]}[x]
        ys = [dfs[i] if y == 'discount_factor' else zero(y, dfs[i], t[i]) for i in o]
        case = dict(cd=str(cd), interp=m, basis=basis, x=x, y=y, reversed=rev, wide=True)
        rec.state(repr(case))
        kw = {} if y == 'discount_factor' else dict(compounding_freq=CompoundingFreq[y])
        ok, z = rec.call('raises', case, ZeroCurve, curve_date=pd.Timestamp(cd), pillar_df=pd.DataFrame({x: xs, 'discount_factor' if y == 'discount_factor' else 'zero_rate': ys}), day_count_basis=DayCountBasis[basis],
                         cal=cal.np(), interp_method=ZeroCurveInterpMethod[m], **kw)
        if not ok:
            continue
        D_ = pd.DatetimeIndex([pd.Timestamp(d) for d in q])
        ok, g = rec.call('raises', case, z.get_discount_factors, D_)
        ok2, r = rec.call('raises', case, z.get_zero_rates, CompoundingFreq.CONTINUOUS, D_)
        if ok and ok2:
            rec.trace()
            rec.check(np.allclose(g, want, rtol=1e-9, atol=0), 'curve_differs', case, lambda: 'at %s got %r want %r' % next((str(a), b, c) for a, b, c in zip(q, g, want) if not abs(b - c) <= 1e-9 * c))
            rec.check(np.allclose(r, cz, rtol=1e-7, atol=1e-12), 'zero_differs', case, lambda: 'at %s the zero rate is %r want %r' % next((str(a), b, c) for a, b, c in zip(q, r, cz) if not abs(b - c) <= 1e-7 * abs(c) + 1e-12))
            rec.outcome(tuple(round(float(v), 6) for v in g[:3]))
        ok, P = rec.call('raises', case, lambda: z.pillar_df[z.pillar_df['years'] > 0])
        if ok:
            w = [-math.log(b) / a for a, b in zip(t, dfs)]
            rec.check(len(P) == len(w) and np.allclose(P['cczr'].astype(float), w, rtol=1e-8), 'pillar_zero_rate', case, lambda: '%r want %r' % (list(P['cczr']), w))
    rec.sample(case)


def malformed(rec, cd):
    T = pd.Timestamp
    good = pd.DataFrame({'days': [30, 60], 'discount_factor': [0.99, 0.98]})
    bad = {'no_x': pd.DataFrame({'foo': [30, 60], 'discount_factor': [0.99, 0.98]}), 'no_y': pd.DataFrame({'days': [30, 60], 'foo': [0.99, 0.98]}),
           'two_x': pd.DataFrame({'days': [30, 60], 'years': [0.1, 0.2]}), 'three_columns': good.assign(zero_rate=0.01), 'x_and_two_y': pd.DataFrame({'zero_rate': [0.1, 0.2], 'discount_factor': [0.99, 0.98]}),
           'one_column': good[['days']]}
    for k, f in bad.items():
        rec.state('bad', k)
        rec.trace()
        try:
            ZeroCurve(curve_date=T(cd), pillar_df=f, compounding_freq=CompoundingFreq.ANNUAL)
            rec.fail('malformed_accepted', dict(kind=k), 'malformed pillar frame accepted')
        except Exception:
            pass
    rec.state('bad', 'no_compounding')
    try:
        ZeroCurve(curve_date=T(cd), pillar_df=pd.DataFrame({'days': [30, 60], 'zero_rate': [0.01, 0.02]}))
        rec.fail('malformed_accepted', dict(kind='no_compounding'), 'zero rates without a compounding frequency accepted')
    except ValueError:
        pass
    rec.step(7)
