"""C13: a zero curve reprices its pillars, interpolates by the stated rule, and every query form returns the same numbers in the caller's order."""
import itertools, math
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import DayCountBasis, CompoundingFreq, ZeroCurveInterpMethod, ZeroCurveExtrapMethod
from mc.ref.curves import RefCurve, LIN, SPLN, SPLZ
from mc.ref.dates import ref_years

D = date
BOUNDS = {
    'quick': '2 curve dates x 4 day counts x 3 interpolation methods x every non-empty subset (>=4 pillars for splines; on the second curve date sizes 1,4,6,7 only) of a 7-date pillar alphabet; queried at every pillar, pillar +-1 day, 10 interior dates; '
             '(for the full pillar set and one small one) every ordered query list of length <= 3 with repetition over a 6-date alphabet incl. the curve date and out-of-range dates, in 6 container forms, by date / days / years, under both '
             'extrapolation settings; flat shifts of -100,-1,1,25,100 bp; curves of pillars from one day to 60 years; every subset of 8 pillars given as years (quick: a quarter of the middle sizes), all 4 day counts, both extrapolation settings, dates inside and past the last pillar',
    'thorough': '9-date pillar alphabet, query lists of length <= 4'}
ASSUMPTIONS = ['spline interpolation is the interpolating (not-a-knot) cubic spline', 'zero rate at t=0 is unspecified', 'queries by years stay inside the pillar range']
OFF = [1, 92, 181, 366, 731, 1097, 1827, 15, 2557]
RATE = [0.031, 0.029, 0.034, 0.038, 0.036, 0.041, 0.044, 0.027, 0.043]
CDS = [D(2024, 1, 31), D(2023, 3, 15)]
BASES = ['ACT_365', 'ACT_360', 'ACT_ACT', '_30E_360']
METHODS = [LIN, SPLN, SPLZ]


def units(tier):
    far = [dict(kind='far', cd=str(CDS[i % 2]), basis=b, interp=m, tier=tier) for i, b in enumerate(BASES) for m in METHODS]
    return far + [dict(cd=str(cd), basis=b, interp=m, tier=tier) for cd in CDS for b in BASES for m in METHODS] + [dict(kind='years', basis=b, interp=m, tier=tier) for b in BASES for m in METHODS]


TEN = [0.27, 0.5, 1.0, 1.51, 2.0, 2.97, 4.6, 5.0]


def years_form(u, rec):
    """Pillars given as year fractions: dates up to the last pillar are interpolated at their year fraction, dates past it are out of range."""
    basis, interp = u['basis'], u['interp']
    cd = CDS[0]
    days = [cd + timedelta(n) for n in range(0, 2300)]
    yf = np.array([0.] + [ref_years(basis, cd, d) for d in days[1:]])
    for k in range(1 if interp == LIN else 4, len(TEN) + 1):
        for j, sub in enumerate(itertools.combinations(TEN, k)):
            if u['tier'] == 'quick' and k > 2 and k < len(TEN) - 1 and j % 4:
                continue
            dfs = [math.exp(-RATE[TEN.index(t)] * t) for t in sub]
            ref = RefCurve.from_years(sub, dfs, interp)
            first = int(np.searchsorted(yf, sub[-1] - 1e-12))      # first date on or after the last pillar
            inside = sorted({n for t in sub for n in (int(t * 360), int(t * 365), first - 1) if 0 < n and yf[n] <= sub[-1]} | set(range(1, first, 97)))
            if yf[first] <= sub[-1]:
                first = int(np.searchsorted(yf, sub[-1] + 1e-12)) - 1
            while yf[first + 1] == yf[first]:          # two dates at one year fraction (30E/360: the 30th and the 31st)
                first += 1
            past = [first + 1, first + 2, first + 9, first + 40, first + 300]
            for extrap in ('NONE', 'FLAT'):
                base = dict(basis=basis, interp=interp, years=list(sub), extrap=extrap)
                rec.state(repr(base))
                rec.step()
                ok, z = rec.call('raises', base, ZeroCurve, curve_date=pd.Timestamp(cd), pillar_df=pd.DataFrame({'years': list(sub), 'discount_factor': dfs}), day_count_basis=DayCountBasis[basis],
                                 interp_method=ZeroCurveInterpMethod[interp], extrap_method=ZeroCurveExtrapMethod[extrap])
                if not ok:
                    continue
                ok, g = rec.call('raises', base, z.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(days[n]) for n in [0] + inside + past]))
                if not ok:
                    continue
                rec.trace(len(g))
                w = [1.] + [math.exp(ref.ln(yf[n])) for n in inside]
                rec.check(np.allclose(g[:len(w)], w, rtol=1e-9, atol=0), 'years_form', base, lambda: 'got %s want %s' % (list(g[:len(w)]), w))
                o = g[len(w):]
                if extrap == 'NONE':
                    rec.check(np.isnan(o).all(), 'past_the_end', base, lambda: 'dates past the last pillar have discount factors %s' % list(o))
                else:       # flat on the zero rate of the last pillar, to within the part of a day between it and the last date
                    w2 = [math.exp(ref.ln(sub[-1]) / sub[-1] * yf[n]) for n in past]
                    rec.check(np.allclose(o, w2, rtol=2e-3 if interp == LIN else 5e-3, atol=0), 'flat_past_the_end', base, lambda: 'got %s want %s' % (list(o), w2))
                rec.outcome((extrap, round(float(g[1]), 4)))


FAR = [1, 30, 3653, 10958, 16437, 18263, 21915]


def far_curve(u, rec):
    """pillars from one day to sixty years"""
    cd, basis, interp = date.fromisoformat(u['cd']), u['basis'], u['interp']
    pills = [cd + timedelta(o) for o in FAR]
    dfs = [math.exp(-r * ref_years('ACT_365', cd, d)) for r, d in zip(RATE, pills)]
    for k in (4, 5, 6, 7):
        sub = pills[:k]
        base = dict(cd=str(cd), basis=basis, interp=interp, pillars=[str(x) for x in sub])
        ref = RefCurve(cd, sub, dfs[:k], basis, interp)
        rec.state(repr(base))
        ok, z = rec.call('raises', base, make, cd, sub, dfs[:k], basis, interp)
        if not ok:
            continue
        q = sorted({cd} | set(sub) | {d + timedelta(s) for d in sub[1:] for s in (-1, 1) if d + timedelta(s) <= sub[-1]} | {cd + (sub[-1] - cd) * i // 60 for i in range(1, 60)})
        ok, g = rec.call('raises', base, z.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in q]))
        if ok:
            rec.trace(len(q))
            for d, x in zip(q, g):
                w = dfs[pills.index(d)] if d in sub else ref.df(d)
                rec.check(near(x, w), 'pillar' if d in sub else 'interpolation', dict(base, date=str(d)), lambda: 'discount factor %r, want %r' % (x, w))
            rec.outcome(tuple(round(float(x), 5) for x in g[:4]))
        if k == 7:
            flat = [5 / 1e4]
            ok, s = rec.call('raises', dict(base, bp=5), z.flat_shift, 5)
            ok = ok and rec.call('raises', dict(base, bp=5), s.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in sub]))[0]
            if ok:
                g = s.get_discount_factors(pd.DatetimeIndex([pd.Timestamp(d) for d in sub]))
                for d, x in zip(sub, g):
                    w = dfs[pills.index(d)] * math.exp(-flat[0] * ref.years(d))
                    rec.check(near(x, w), 'flat_shift', dict(base, date=str(d)), lambda: 'discount factor %r, want %r' % (x, w))


def make(cd, dates, dfs, basis, interp, extrap='NONE', **kw):
    return ZeroCurve(curve_date=pd.Timestamp(cd), pillar_df=pd.DataFrame({'date': [pd.Timestamp(d) for d in dates], 'discount_factor': dfs}), day_count_basis=DayCountBasis[basis],
                     interp_method=ZeroCurveInterpMethod[interp], extrap_method=ZeroCurveExtrapMethod[extrap], **kw)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def run_unit(u, rec):
    if u.get('kind') == 'far':
        return far_curve(u, rec)
    if u.get('kind') == 'years':
        return years_form(u, rec)
    cd, basis, interp = date.fromisoformat(u['cd']), u['basis'], u['interp']
    n = 7 if u['tier'] == 'quick' else 9
    pills = sorted((cd + timedelta(o), r) for o, r in zip(OFF[:n], RATE[:n]))
    dfs = {d: math.exp(-r * ref_years('ACT_365', cd, d)) for d, r in pills}
    alld = [d for d, _ in pills]
    for k in range(1 if interp == LIN else 4, n + 1):
        for j, sub in enumerate(itertools.combinations(alld, k)):
            if u['tier'] == 'quick' and k not in (1, 4, n, n - 1) and cd != CDS[0]:
                continue
            base = dict(cd=str(cd), basis=basis, interp=interp, pillars=[str(x) for x in sub])
            ref = RefCurve(cd, sub, [dfs[d] for d in sub], basis, interp)
            ok, z = rec.call('raises', base, make, cd, sub, [dfs[d] for d in sub], basis, interp)
            if not ok:
                continue
            last = sub[-1]
            q = {cd, cd + timedelta(1)} | set(sub) | {d + timedelta(s) for d in sub for s in (-1, 1)} | {cd + (last - cd) * i // 7 for i in range(1, 7)}
            q = sorted(d for d in q if cd <= d <= last)
            rec.state(repr(base))
            ok, g = rec.call('raises', base, z.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in q]))
            if not ok:
                continue
            rec.trace(len(q))
            for d, x in zip(q, g):
                w = dfs[d] if d in sub else ref.df(d)
                rec.check(near(x, w), 'pillar' if d in sub else 'interpolation', dict(base, date=str(d)), lambda: 'discount factor %r, want %r' % (x, w))
            rec.check(g[0] == 1.0, 'curve_date', base, lambda: 'discount factor on the curve date is %r' % g[0])
            rec.outcome(tuple(round(float(x), 5) for x in g[:4]))
            # zero rates of every compounding agree with the discount factors
            qq = [pd.Timestamp(d) for d in q if d > cd]
            yy = np.array([ref.years(d.date()) for d in qq])
            yr = np.array([(1 if y > 0 else 0) for y in yy], bool)
            for f in (CompoundingFreq if k in (1, 4, n) else (CompoundingFreq.SIMPLE, CompoundingFreq.QUARTERLY)):
                ok, zr = rec.call('raises', dict(base, freq=f.name), z.get_zero_rates, f, pd.DatetimeIndex(qq))
                if ok:
                    from mc.checks.c12 import ref_df
                    back = np.array([ref_df(f.name, r, t) for r, t in zip(zr, yy)])
                    want = np.array([dfs[d.date()] if d.date() in sub else ref.df(d.date()) for d in qq])
                    rec.check(np.allclose(back[yr], want[yr], rtol=1e-9, atol=0), 'zero_rate', dict(base, freq=f.name), 'zero rates do not give back the discount factors')
            if k == n or k in (1, 4) and j == (3 if k == 1 else 17) or u['tier'] == 'thorough' and k in (1, 4):
                queries(u, rec, base, z, ref, sub, cd, basis, interp, dfs)
            if k in (n, 1) or k in (n - 1, 4) and (j % 4 == 0 or u['tier'] == 'thorough'):
                shifts(rec, base, z, ref, sub, cd, basis, interp, dfs, q)
    rec.sample(base)


def queries(u, rec, base, z, ref, sub, cd, basis, interp, dfs):
    last = sub[-1]
    f = make(cd, sub, [dfs[d] for d in sub], basis, interp, 'FLAT')
    alpha = [cd + timedelta(20), sub[0], cd, cd + (last - cd) * 2 // 3, last + timedelta(40), cd - timedelta(5)]
    L = 3 if u['tier'] == 'quick' else 4

    def want(d, extrap):
        if d < cd:
            return None if extrap == 'NONE' else 1.0
        if d > last:
            if extrap == 'NONE':
                return None
            t, tl = ref.years(d), ref.years(last)
            return math.exp(ref.ln(tl) / tl * t)
        return ref.df(d)
    W = {(d, e): want(d, e) for d in alpha for e in ('NONE', 'FLAT')}
    forms = {'dti': lambda ds: pd.DatetimeIndex(ds), 'series': lambda ds: pd.Series(ds), 'odd_series': lambda ds: pd.Series(ds, index=range(9, 9 - len(ds), -1))}
    lists = [p for l in range(1, L + 1) for p in itertools.product(alpha, repeat=l)]
    for extrap, c in (('NONE', z), ('FLAT', f)):
        for i, p in enumerate(lists):
            for fn, mk in (forms.items() if len(p) <= 2 else list(forms.items())[i % 3:i % 3 + 1]):
                ts = [pd.Timestamp(d) for d in p]
                case = dict(base, extrap=extrap, form=fn, dates=[str(d) for d in p])
                rec.state(repr(case))
                arg = mk(ts)
                ok, g = rec.call('raises', case, c.get_discount_factors, arg)
                if ok:
                    w = [W[d, extrap] for d in p]
                    rec.trace()
                    g = np.atleast_1d(g)
                    good = len(g) == len(w) and all((x != x) if y is None else near(x, y, 1e-9) for x, y in zip(g, w))
                    rec.check(good, 'query', case, lambda: 'got %s want %s' % (list(g), w))
                    rec.check(list(arg) == ts, 'mutated', case, 'argument modified')
        for d in alpha:
            w = W[d, extrap]
            for arg in (pd.Timestamp(d), np.datetime64(d), d, pd.Timestamp(d).to_pydatetime()):
                case = dict(base, extrap=extrap, date=str(d), form=type(arg).__name__)
                ok, g = rec.call('raises', case, c.get_discount_factors, arg)
                if ok:
                    rec.check(np.ndim(g) == 0 and ((g != g) if w is None else near(g, w, 1e-9)), 'scalar_query', case, lambda: 'got %r want %r' % (g, w))
            n = (d - cd).days
            for arg in (n, pd.Series([n, n]), np.array([n, 5]), [5, n]):
                case = dict(base, extrap=extrap, days=repr(arg))
                ok, g = rec.call('raises', case, c.get_discount_factors, days=arg)
                if ok:
                    vals = [n] if np.ndim(arg) == 0 else list(arg)
                    w = [want(cd + timedelta(int(m)), extrap) for m in vals]
                    g = np.atleast_1d(g)
                    rec.check(len(g) == len(w) and all((x != x) if y is None else near(x, y, 1e-9) for x, y in zip(g, w)), 'days_query', case, lambda: 'got %s want %s' % (list(g), w))
    T = [t for t in (ref.t[-1], ref.t[-1] / 3, ref.t[0], ref.t[0] / 2, 0.37 * ref.t[-1]) if t <= ref.t[-1]]
    for l in range(1, 3 if u['tier'] == 'quick' else 4):
        for p in itertools.product(T, repeat=l):
            for arg in ([np.array(p), pd.Series(p), list(p)] if l > 1 else [p[0], np.array(p), pd.Series(p)]):
                case = dict(base, years=list(p), form=type(arg).__name__)
                rec.state(repr(case))
                ok, g = rec.call('raises', case, z.get_discount_factors, years=arg)
                if ok:
                    g = np.atleast_1d(g)
                    w = [math.exp(ref.ln(t)) for t in p]
                    rec.trace()
                    rec.check(len(g) == len(w) and np.allclose(g, w, rtol=1e-9, atol=0), 'years_query', case, lambda: 'got %s want %s' % (list(g), w))
    for kw in (dict(), dict(dates=pd.Timestamp(sub[0]), days=3), dict(days=3, years=0.1)):
        rec.step()
        try:
            z.index_daily_data(**kw)
            rec.fail('ambiguous_query', dict(base, args=list(kw)), 'accepted')
        except ValueError:
            pass


def shifts(rec, base, z, ref, sub, cd, basis, interp, dfs, q):
    before = z.pillar_df.copy(), z.daily_df.copy()
    for bp in (-100, -1, 1, 25, 100):
        case = dict(base, bp=bp)
        rec.state(repr(case))
        ok, s = rec.call('raises', case, z.flat_shift, bp)
        if not ok:
            continue
        qs = [d for d in q if d > cd] if interp == LIN else list(sub)
        ok, g = rec.call('raises', case, s.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in qs]))
        if ok:
            w = [ref.df(d) * math.exp(-bp / 1e4 * ref.years(d)) for d in qs]
            rec.trace()
            rec.check(np.allclose(g, w, rtol=1e-9, atol=0), 'flat_shift', case, lambda: 'got %s want %s' % (list(g)[:5], w[:5]))
        rec.check((s.day_count_basis, s.interp_method, s.extrap_method) == (z.day_count_basis, z.interp_method, z.extrap_method), 'shift_settings', case, 'settings lost')
        ok, back = rec.call('raises', case, s.flat_shift, -bp)
        if ok:
            ok, g = rec.call('raises', case, back.get_discount_factors, pd.DatetimeIndex([pd.Timestamp(d) for d in sub]))
            rec.check(ok and np.allclose(g, [dfs[d] for d in sub], rtol=1e-9, atol=0), 'shift_back', case, 'shifting back does not restore the curve')
    rec.check(z.pillar_df.equals(before[0]) and z.daily_df.equals(before[1]), 'shift_mutates', base, 'flat_shift changed the original curve')
