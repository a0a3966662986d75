"""C32: FX curve, spot, fixing and delivery dates are consistent whichever of them is given, and the forward curve between them is linear in time."""
import itertools, warnings
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.utils.tenor import resolve_fx_curve_dates as resolve, calc_implied_business_day_offset as implied, check_day_offset_consistency as consistent, get_fx_spot_day_offset as market, get_ir_settlement_offset as settle
from frm.term_structures.fx_helpers import fx_term_structure_helper as helper, fx_forward_curve_helper as fhelper, interp_fx_forward_curve_df as interp, validate_ccy_pair as pair
from mc.ref.sched import Cal, follow, bd_offset, add_months

BOUNDS = {
    'quick': 'every day of 14 months x 4 calendars x 9 subsets of {curve date, spot offset 0..4, spot date} x 5 pairs; every ordered pair of days within 12; term structures: 18 curve dates x 4 calendars x 3 offsets x every assignment of '
             '{tenor, fixing date, delivery date, both dates, both dates with a fixing date of its own} to 3 rows, 25 tenors; forward curves: every subset of up to 4 of 6 pillars, every day around them, every order of 4 requested dates',
    'thorough': 'every day of 4 years, offsets to 8, pairs of days within 30, 60 curve dates, 4 rows'}
ASSUMPTIONS = ['a spot or delivery date that is given is a business day', 'pillars of a forward curve fall on distinct dates']
D = timedelta
CALS = [Cal(), Cal('1111100', [date(2023, 12, 25), date(2023, 12, 26), date(2024, 1, 1), date(2024, 3, 29), date(2024, 4, 1), date(2024, 2, 29)]), Cal('1111001', [date(2024, 1, 2), date(2024, 1, 3), date(2024, 5, 1)]), Cal('1111011', [date(2024, 1, 1), date(2024, 2, 10), date(2024, 5, 1)])]
PAIRS = {'audusd': 2, 'usdcad': 1, 'cadusd': 1, 'usdtry': 1, 'eurgbp': 2, 'usdjpy': 2}
TEN = {'sp': 0, 'on': 1, 'tn': 2, 'sn': 1, '1d': 1, '3d': 3, '30d': 30, '1w': 7, '2w': 14, '1 Week': 7, '1m': 'm1', '2M': 'm2', '3 Months': 'm3', '6m': 'm6', '11m': 'm11', '1y': 'm12', '1 Year': 'm12', '15m': 'm15', '18M': 'm18', '2y': 'm24',
       '1y6m': 'm18', '3y': 'm36', '5Y': 'm60', '10y': 'm120', '30y': 'm360'}


def ts(d):
    return pd.Timestamp(d)


def units(tier):
    q = tier == 'quick'
    days = 425 if q else 1461
    u = [dict(kind='resolve', lo=a, hi=min(a + 61, days), cal=c, tier=tier) for a in range(0, days, 61) for c in range(4)]
    u += [dict(kind='implied', lo=a, hi=min(a + 122, days), cal=c, n=12 if q else 30) for a in range(0, days, 122) for c in range(4)]
    starts = [date(2023, 12, 18) + D(3 * i) for i in range(18)] if q else [date(2023, 11, 1) + D(3 * i) for i in range(60)]
    u += [dict(kind='terms', start=s.isoformat(), rows=3 if q else 4) for s in starts]
    return u + [dict(kind='curve', n=n) for n in (1, 2, 3, 4)] + [dict(kind='misc')]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def do_resolve(u, rec):
    cal = CALS[u['cal']]
    c = cal.np()
    for i in range(u['lo'], u['hi']):
        d = date(2023, 11, 1) + D(i)
        for n in range(5 if u['tier'] == 'quick' else 9):
            spot = bd_offset(d, n, 'FOLLOWING', cal)
            for pair, m in PAIRS.items() if n == 0 else [('audusd', 2)]:
                for kind in ('c', 'cn', 'cs', 'cns', 's', 'sn', 'bad') if n == 0 else ('cn', 'cs', 'cns', 'sn', 'bad'):
                    case = dict(curve_date=d, offset=n, pair=pair, given=kind, cal=u['cal'])
                    rec.state(repr(case))
                    kw, want = {}, (d, n, spot)
                    if kind in ('s', 'sn'):
                        if not cal.bd(d):
                            continue
                        k = m if kind == 's' else n
                        kw, want = dict(spot_date=ts(d)), (bd_offset(d, -k, 'PRECEDING', cal), k, d)
                        if kind == 'sn':
                            kw['spot_offset'] = n
                    elif kind == 'c':
                        kw, want = dict(curve_date=ts(d)), (d, m, bd_offset(d, m, 'FOLLOWING', cal))
                    elif kind == 'cn':
                        kw = dict(curve_date=ts(d), spot_offset=n)
                    elif kind == 'cs':
                        kw = dict(curve_date=ts(d), spot_date=ts(spot))
                    else:
                        kw = dict(curve_date=ts(d), spot_date=ts(spot), spot_offset=n)
                    if kind == 'bad':
                        for k in (n - 1, n + 1, n + 2):
                            if k >= 0:
                                rec.step()
                                try:
                                    rec.fail('inconsistent', dict(case, claimed=k), repr(resolve(pair, c, **dict(kw, spot_offset=k))))
                                except ValueError:
                                    rec.outcome('rejected')
                        continue
                    ok, r = rec.call('raises', case, resolve, pair, c, **kw)
                    if ok:
                        rec.trace()
                        rec.outcome((want[2] - want[0]).days, want[1])
                        rec.check(tuple(r) == (ts(want[0]), want[1], ts(want[2])), 'resolve', case, lambda: '%r want %r' % (r, want))


def do_implied(u, rec):
    cal = CALS[u['cal']]
    c = cal.np()
    for i in range(u['lo'], u['hi']):
        d = date(2023, 11, 1) + D(i)
        for k in range(u['n']):
            e = d + D(k)
            if not cal.bd(e):
                continue
            case = dict(date=d, offset_date=e, cal=u['cal'])
            rec.state(repr(case))
            w = sum(cal.bd(d + D(j)) for j in range(k + 1)) - 1 if k else 0
            ok, r = rec.call('raises', case, implied, ts(d), ts(e), c)
            if ok:
                rec.trace()
                rec.check(r == w, 'implied', case, lambda: '%r want %r' % (r, w))
                ok, _ = rec.call('consistent_raises', case, consistent, ts(d), ts(e), w, c)
            rec.step()
            try:
                implied(ts(e + D(1)), ts(d), c)
                rec.fail('reversed', case, 'accepted')
            except AssertionError:
                rec.outcome('reversed')


def rate_set(start, t, cal):
    o = TEN[t]
    return follow(add_months(start, int(o[1:])) if isinstance(o, str) else start + D(o), cal)


def clean(t):
    return t.lower().replace(' ', '').replace('months', 'm').replace('month', 'm').replace('week', 'w').replace('year', 'y')


def do_terms(u, rec):
    start = date.fromisoformat(u['start'])
    for ci, cal in enumerate(CALS):
        c = cal.np()
        for n in (0, 1, 2):
            for t in TEN:
                rows = dict(tenor=t, fix=rate_set(start, t, cal))
                table(rec, c, cal, start, n, [t], ['tenor'], ci, 'fixing_date')
            pool = ['2M', '1w', '1y', '6m'][:u['rows']]
            for how in itertools.product(('tenor', 'fix', 'delivery', 'both', 'odd') if u['rows'] < 4 or n == 2 else ('tenor', 'fix', 'delivery', 'both'), repeat=u['rows']):
                table(rec, c, cal, start, n, pool, how, ci, 'expiry_date')
                if n == 2 and len(set(how)) > 1:
                    table(rec, c, cal, start, n, pool[::-1], how, ci, 'fixing_date')


def table(rec, c, cal, start, n, tenors, how, ci, name):
    cols = {'x': [], 'tenor': [], name: [], 'delivery_date': []}
    want = []
    for i, (t, h) in enumerate(zip(tenors, how)):
        f = rate_set(start, t, cal)
        e = bd_offset(f, n, 'FOLLOWING', cal)
        if h == 'odd':      # the fixing dates given come in another order than the delivery dates
            f = start + D(400 - (f - start).days // 2)
        cols['x'].append(i)
        cols['tenor'].append(t if h == 'tenor' else None)
        cols[name].append(ts(f) if h in ('fix', 'both', 'odd') else pd.NaT)
        cols['delivery_date'].append(ts(e) if h in ('delivery', 'both', 'odd') else pd.NaT)
        want.append((ts(e), i, ts(f), clean(t) if h == 'tenor' else None))
    want.sort()
    full = pd.DataFrame(cols)
    variants = [full] + ([full.drop(columns=[k for k in ('tenor', name, 'delivery_date') if full[k].isna().all()]).set_index(pd.Index([7, 3, 9, 1][:len(full)]))])
    for df in variants:
        case = dict(curve_date=start, offset=n, tenors=tenors, given=how, cal=ci, columns=list(df.columns))
        rec.state(repr(case))
        keep = df.copy()
        ok, r = rec.call('raises', case, helper, df, ts(start), n, c, name)
        rec.check(df.equals(keep), 'mutated', case, 'the dataframe given was modified')
        if ok:
            rec.trace()
            rec.outcome(str(want))
            rec.check(list(r['delivery_date']) == [w[0] for w in want] and list(r['x']) == [w[1] for w in want] and list(r[name]) == [w[2] for w in want] and list(r.index) == list(range(len(want))), 'term', case,
                      lambda: '%r want %r' % (r.to_dict('list'), want))
            if 'tenor' in df.columns:
                rec.check([None if pd.isna(x) else x for x in r['tenor']] == [w[3] for w in want], 'tenor', case, lambda: repr(list(r['tenor'])))


def do_curve(u, rec):
    c = CALS[0].np()
    start = date(2024, 1, 3)
    pool = [('SP', 1.1), ('1W', 1.105), ('1M', 1.09), ('2M', 1.2), ('3M', 1.15), ('6M', 1.3)]
    for sel in itertools.permutations(pool, u['n']):
        if [pool.index(s) for s in sel] not in (sorted(pool.index(s) for s in sel), sorted((pool.index(s) for s in sel), reverse=True)) and u['n'] > 3:
            continue
        df = pd.DataFrame({'tenor': [s[0] for s in sel], 'fx_forward_rate': [s[1] for s in sel]})
        case = dict(pillars=sel)
        ok, fc = rec.call('raises', case, fhelper, df, ts(start), 2, c)
        if not ok:
            continue
        for typ in ('fixing_date', 'delivery_date'):
            pil = sorted(((follow(start if t == 'SP' else start + D(7) if t == '1W' else add_months(start, int(t[0])), CALS[0])), v) for t, v in sel)
            if typ == 'delivery_date':
                pil = [(bd_offset(a, 2, 'FOLLOWING', CALS[0]), v) for a, v in pil]
            rec.check([(x.date(), v) for x, v in zip(fc[typ], fc['fx_forward_rate'])] == pil, 'pillars', dict(case, type=typ), lambda: '%r want %r' % (fc.to_dict('list'), pil))

            def ref(d, flat):
                if d < pil[0][0] or d > pil[-1][0]:
                    return (pil[0][1] if d < pil[0][0] else pil[-1][1]) if flat else float('nan')
                for (a, x), (b, y) in zip(pil, pil[1:] + [pil[-1]]):
                    if a <= d <= b:
                        return x if a == b else x + (y - x) * (d - a).days / (b - a).days
            days = [pil[0][0] + D(i) for i in range(-3, (pil[-1][0] - pil[0][0]).days + 4)]
            if len(days) > 60 and u['n'] > 2:
                days = days[::9] + days[-3:]
            few = [days[i] for i in (len(days) // 2, 0, -1, len(days) // 3)]
            for flat in (True, False):
                for L in [days, days[::-1]] + ([list(p) for p in itertools.permutations(few)] + [[few[0], few[1], few[0]], few[:1]] if u['n'] == 2 else []):
                    for wrap in (pd.DatetimeIndex, lambda x: pd.Series(x, index=range(5, 5 + len(x)), dtype='datetime64[ns]')):
                        k = dict(case, type=typ, flat=flat, dates=L if len(L) < 6 else [L[0], '..', L[-1]])
                        rec.state(repr(k), repr(wrap))
                        ok, r = rec.call('raises', k, interp, fc, wrap(pd.DatetimeIndex(L)), typ, flat)
                        if ok:
                            rec.trace()
                            w = [ref(d, flat) for d in L]
                            rec.check(np.shape(r) == (len(L),) and np.allclose(r, w, rtol=0, atol=1e-12, equal_nan=True), 'interp', k, lambda: '%r want %r' % (r, w))
            for d in (days[0], days[-1], days[len(days) // 2]):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    ok, r = rec.call('raises', case, interp, fc, pd.DatetimeIndex([d]), typ)
                rec.check(bool(ws) == (not pil[0][0] <= d <= pil[-1][0]), 'warning', dict(case, date=d), 'extrapolation warning missing or spurious')


def do_misc(u, rec):
    for a, b in itertools.permutations(('usd', 'cad', 'php', 'rub', 'try', 'eur', 'aud', 'jpy', 'gbp'), 2):
        rec.state(a, b)
        ok, r = rec.call('raises', dict(pair=a + b), market, a + b)
        rec.trace()
        w = 1 if 'usd' in (a, b) and {a, b} & {'cad', 'php', 'rub', 'try'} else 2
        rec.check(ok and r == w, 'market', dict(pair=a + b), lambda: '%r want %r' % (r, w))
    for a in ('usd', 'cad', 'aud', 'nzd', 'jpy', 'eur', 'gbp'):
        rec.state('settlement', a)
        rec.trace()
        ok, r = rec.call('raises', dict(ccy=a), settle, a)
        rec.check(ok and r == (0 if a == 'gbp' else 2), 'settlement', dict(ccy=a), lambda: repr(r))
    majors = ('aud', 'eur', 'gbp', 'nzd')
    for a, b in itertools.permutations(majors + ('usd', 'cad', 'jpy'), 2):
        for sp in ('%s%s' % (a, b), '%s/%s' % (a.upper(), b.upper()), ' %s%s ' % (a.title(), b), a + '/' + b + ' '):
            rec.state('pair', sp)
            rec.trace()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                ok, r = rec.call('raises', dict(pair=sp), pair, sp)
            rec.check(ok and tuple(r) == (a + b, b, a), 'pair', dict(pair=sp), lambda: repr(r))
            odd = a == 'usd' and b in majors or b == 'usd' and a not in majors
            rec.check(bool(ws) == odd, 'pair_warning', dict(pair=sp), 'warning missing or spurious')
    for sp in ('', 'aud', 'audus', 'audusdx', 'aud usd', 'aud-usd'):
        try:
            rec.fail('accepted_pair', dict(pair=sp), repr(pair(sp)))
        except AssertionError:
            rec.outcome('rejected')
    c = CALS[0].np()
    for f in (lambda: helper(pd.DataFrame({'x': [1]}), ts(date(2024, 1, 3)), 2, c, 'fixing_date'), lambda: helper(pd.DataFrame({'tenor': ['1m', None]}), ts(date(2024, 1, 3)), 2, c, 'fixing_date'),
              lambda: helper(pd.DataFrame({'tenor': ['1x']}), ts(date(2024, 1, 3)), 2, c, 'fixing_date'), lambda: fhelper(pd.DataFrame({'tenor': ['1m']}), ts(date(2024, 1, 3)), 2, c),
              lambda: resolve('audusd', c), lambda: interp(None, ts(date(2024, 1, 3)), 'fixing_date')):
        rec.step()
        try:
            rec.fail('accepted', {}, repr(f()))
        except Exception:
            rec.outcome('rejected')
