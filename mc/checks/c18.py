"""C18: cash rates and futures get their contract dates, and the bootstrapped discount factors reprice every one of them, in whatever order and form they are given."""
import calendar, itertools, math, warnings
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.enums import DayCountBasis
from frm.utils import get_busdaycal
from frm.term_structures.bootstrap_helpers import cash_rates_quote_helper as cash, bootstrap_cash_rates as boot_cash, bootstrap_futures as boot_fut, futures_helper_asx_90day as asx
from mc.ref.dates import ref_years
from mc.ref.sched import Cal, follow, bd_offset, add_months

BOUNDS = {
    'quick': 'cash: every day of 6 weeks over year end and of 3 weeks over Easter and a leap day x 3 calendars x settlement delays 0..3 and given settlement dates x every subset of 6 tenors x 3 day counts; every order and 6 representations of the rows; '
             'futures: every quarterly contract 2000-2059 in 8 ticker spellings, every sequence (repeats included) of 4 out of 5 contracts, 60 malformed tickers; strips: every subset and order of up to 4 contracts x 3 cash curves x convexity x price or rate',
    'thorough': 'every day of two years, 8 tenors, sequences of 5, strips of 5'}
ASSUMPTIONS = ['cash rates roll to the following business day', 'the discount factor of a settlement date is known if a cash rate matures on it or it is the curve date, otherwise the bootstrap is rejected',
               'single digit year codes are in 2020-2029 (documented)', 'calendars are right (C10)', 'nodes of a strip fall on distinct dates']
D = timedelta
HOL = [date(2023, 12, 25), date(2023, 12, 26), date(2024, 1, 1), date(2024, 3, 29), date(2024, 4, 1), date(2024, 2, 29)]
CALS = [Cal(), Cal('1111100', HOL), Cal('1111001', [date(2024, 1, 2), date(2024, 1, 3)])]
TEN = {'on': 1, 'tn': 1, '1w': 7, '1m': 'm1', '3m': 'm3', '6m': 'm6', '2w': 14, '1y': 'm12'}
RATE = {'on': .04, 'tn': .0405, '1w': .041, '1m': .0425, '3m': -.005, '6m': .0475, '2w': .0, '1y': .05}
BAS = ['ACT_365', 'ACT_360', '_30_360']
ts = pd.Timestamp


def days(tier):
    if tier != 'quick':
        return [date(2023, 7, 1) + D(i) for i in range(731)]
    return [date(2023, 12, 8) + D(i) for i in range(42)] + [date(2024, 3, 22) + D(i) for i in range(14)] + [date(2024, 2, 26) + D(i) for i in range(7)]


def units(tier):
    ds = days(tier)
    n = 16 if tier == 'quick' else 64
    return [dict(kind='cash', lo=i, n=n, tier=tier) for i in range(n)] + [dict(kind='order', k=i, delay=d, tier=tier) for i in range(4) for d in range(3)] + [dict(kind='tick', lo=y, tier=tier) for y in range(2000, 2060, 10)] + [dict(kind='bad')] + \
        [dict(kind='seq', first=i, n=4 if tier == 'quick' else 5) for i in range(5)] + [dict(kind='strip', cash=c, n=4 if tier == 'quick' else 5) for c in range(3)]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def off(d, t):
    v = TEN[t]
    return add_months(d, int(v[1:])) if isinstance(v, str) else d + D(v)


def expected(cd, ten, settle, cal):
    e = cd if ten == 'on' else bd_offset(cd, 1, 'FOLLOWING', cal) if ten == 'tn' else settle
    return e, follow(off(e, ten), cal)


def dates(x):
    return [ts(v).date() for v in x]


def close(x, y, tol=1e-12):
    return x == x and abs(x - y) <= tol * max(1., abs(y))


def model(rows, cd, basis):
    """rows of (tenor, effective, maturity, rate) -> {tenor: (DF at effective, DF at maturity)}, or None where a settlement date has no discount factor."""
    node, out = {cd: 1.}, {}
    for t, e, m, r in sorted(rows, key=lambda x: x[2]):
        if e > cd and e not in node:
            return None
        y = float(ref_years(basis, e, m))
        d0 = node[e] if e > cd else 1.
        out[t] = (d0, d0 / (1 + r * y))
        node.setdefault(m, out[t][1])
    return out


def look(rec, case, d, rows, basis):
    by = {t: (e, m, r) for t, e, m, r in rows}
    ok = rec.check(sorted(d['tenor']) == sorted(by), 'rows', case, lambda: 'rows %r' % list(d['tenor']))
    if not ok:
        return False
    for t, e, m, y in zip(d['tenor'], dates(d['effective_date']), dates(d['maturity_date']), d['period_years']):
        ok &= rec.check((e, m) == by[t][:2], 'dates', dict(case, tenor=t), lambda: '%s to %s, expected %s to %s' % (e, m, by[t][0], by[t][1]))
        ok &= rec.check(close(float(y), float(ref_years(basis, *by[t][:2]))), 'years', dict(case, tenor=t), lambda: 'period of %r years' % y)
    return ok


def boot(rec, case, d, rows, cd, basis, yb):
    w = model(rows, cd, basis)
    before = d.copy(deep=True)
    rec.step()
    try:
        r = boot_cash(d, ts(cd), DayCountBasis[yb])
    except Exception as x:  # noqa
        rec.check(w is None, 'bootstrap_raises', case, lambda: '%s: %s' % (type(x).__name__, str(x)[:200]))
        rec.outcome('rejected')
        return None
    rec.check(d.equals(before) and list(d.columns) == list(before.columns), 'mutated', case, lambda: 'the input became %r' % d.to_dict())
    if w is None:
        got = dict(zip(r['tenor'], r['maturity_date_discount_factor']))
        rec.check(any(v != v for v in got.values()), 'invented', case, lambda: 'discount factors %r although that of a settlement date is unknown' % got)
        return None
    rec.check(dates(r['maturity_date']) == sorted(dates(r['maturity_date'])) and sorted(r['tenor']) == sorted(w), 'bootstrap_rows', case, lambda: '%r' % list(r['tenor']))
    for t, x, y in zip(r['tenor'], r['effective_date_discount_factor'], r['maturity_date_discount_factor']):
        rec.check(close(float(x), w[t][0]) and close(float(y), w[t][1]), 'discount_factor', dict(case, tenor=t), lambda: '%r %r, expected %r' % (x, y, w[t]))
    for t, x, y in zip(r['tenor'], r['effective_date_years'], r['maturity_date_years']):
        q = [v for v in rows if v[0] == t][0]
        rec.check(close(float(x), float(ref_years(yb, cd, q[1]))) and close(float(y), float(ref_years(yb, cd, q[2]))), 'curve_years', dict(case, tenor=t), lambda: '%r %r' % (x, y))
    rec.trace()
    rec.outcome(tuple(round(v[1], 12) for v in w.values()))
    return r


def do_cash(u, rec):
    names = list(TEN)[:6 if u['tier'] == 'quick' else 8]
    subs = [s for n in range(1, len(names) + 1) for s in itertools.combinations(names, n)]
    q = 9 if u['tier'] == 'quick' else 4
    for i, cd in enumerate(days(u['tier'])):
        if i % u['n'] != u['lo']:
            continue
        for (j, cal), delay in itertools.product(enumerate(CALS), (0, 1, 2, 3, 'date')):
            settle = follow(cd + D(4), cal) if delay == 'date' else bd_offset(cd, delay, 'FOLLOWING', cal)
            kw = dict(settlement_date=ts(settle)) if delay == 'date' else dict(settlement_delay=delay)
            basis, yb = BAS[(i + j) % 3], ['ACT_ACT', 'ACT_365'][(i + j) % 2]
            # the dates of a row do not depend on the other rows: all tenors at once, then subsets for the bootstrap
            for k, sub in enumerate([tuple(names)] + subs[(i + j) % q::q]):
                sub = sub if (i + k) % 2 else sub[::-1]
                rows = [(t, *expected(cd, t, settle, cal), RATE[t]) for t in sub]
                if len({m for _, _, m, _ in rows}) < len(rows):
                    continue
                case = dict(curve_date=cd, cal=j, delay=delay, tenors=sub, basis=basis)
                rec.state(repr(case))
                df = pd.DataFrame({'tenor': list(sub), 'rate': [RATE[t] for t in sub]})
                before = df.copy(deep=True)
                ok, d = rec.call('raises', case, cash, df, ts(cd), DayCountBasis[basis], cal=cal.np(), **kw)
                if not ok:
                    continue
                rec.check(df.equals(before) and list(df.columns) == list(before.columns), 'mutated', case, lambda: 'the quotes became %r' % df.to_dict())
                if look(rec, case, d, rows, basis):
                    boot(rec, case, d, rows, cd, basis, yb)


SPELL = {'on': ['ON', 'o/n', 'overnight'], 'tn': ['TN', 't/n', 'tn'], '1w': ['1W', '1weeks', '1 week'], '1m': ['1M', '1 Month', '1mon'], '3m': ['3M', '3 months', '3mon']}


def do_order(u, rec):
    names = ['on', 'tn', '1w', '1m', '3m']
    cal = CALS[u['k'] % 3]
    cd = [date(2023, 12, 21), date(2024, 2, 28), date(2024, 3, 27), date(2024, 1, 31)][u['k']]
    for delay in (u['delay'],):
        settle = bd_offset(cd, delay, 'FOLLOWING', cal)
        rows = [(t, *expected(cd, t, settle, cal), RATE[t]) for t in names]
        if len({m for _, _, m, _ in rows}) < len(rows):
            rows = [r for r in rows if r[0] != 'tn']
        for h, p in enumerate(itertools.permutations(rows)):
            base = dict(curve_date=cd, delay=delay, order=[r[0] for r in p])
            ten = [r[0] for r in p]
            full = pd.DataFrame({'tenor': ten, 'rate': [r[3] for r in p]})
            alts = [('plain', full, {}), ('cols', full[['rate', 'tenor']], {}), ('index', full.set_index(pd.Index(['r%d' % (i * 7 % 5) for i in range(len(p))])), {}), ('twice', full.set_index(pd.Index([0] * len(p))), {}),
                    ('dates', pd.DataFrame({'tenor': ten, 'rate': full['rate'], 'effective_date': [ts(r[1]) for r in p], 'maturity_date': [ts(r[2]) for r in p]}), dict(given=True))]
            if u['tier'] == 'quick':
                alts = alts[h % 5:h % 5 + 1]
            if p == tuple(rows) or p == tuple(rows[::-1]):
                nt = pd.DataFrame({'rate': full['rate'], 'effective_date': [ts(r[1]) for r in p], 'maturity_date': [ts(r[2]) for r in p]})
                alts.append(('no_tenor', nt, dict(given=True)))
                for i in range(3):
                    alts.append(('spelling', full.assign(tenor=[SPELL[t][i] for t in ten]), {}))
            for name, df, o in alts:
                case = dict(base, form=name, tenors=list(df['tenor']) if 'tenor' in df else None)
                rec.state(repr(case))
                before = df.copy(deep=True)
                kw = {} if o.get('given') else dict(settlement_delay=delay)
                ok, d = rec.call('raises', case, cash, df, ts(cd), DayCountBasis.ACT_365, cal=cal.np(), **kw)
                if not ok:
                    continue
                rec.check(df.equals(before) and list(df.columns) == list(before.columns), 'mutated', case, lambda: 'the quotes became %r' % df.to_dict())
                if 'tenor' not in d:
                    d = d.assign(tenor=ten)
                if look(rec, case, d, rows, 'ACT_365'):
                    boot(rec, case, d, rows, cd, 'ACT_365', 'ACT_ACT')
    if u['k'] == u['delay'] == 0:
        for cd in days('quick')[:21]:
            rec.step()
            ok, d = rec.call('raises', dict(curve_date=cd, cal=None), cash, pd.DataFrame({'tenor': ['on', '1m'], 'rate': [.04, .05]}), ts(cd), DayCountBasis.ACT_365, settlement_delay=1)
            if ok:
                look(rec, dict(curve_date=cd, cal=None), d, [(t, *expected(cd, t, bd_offset(cd, 1, 'FOLLOWING', Cal()), Cal()), 0) for t in ('on', '1m')], 'ACT_365')


# --- futures
AU = []


def au(d):
    if not AU:
        AU.append(get_busdaycal('AU-SYDNEY'))
    while not np.is_busday(np.datetime64(d), busdaycal=AU[0]):
        d += D(1)
    return d


def contract(y, m):
    f = [d for d in range(1, 32) if d <= calendar.monthrange(y, m)[1] and date(y, m, d).weekday() == 4]
    s = date(y, m, f[1])
    return s - D(1), s, au(add_months(s, 3))


CODE = {3: 'H', 6: 'M', 9: 'U', 12: 'Z'}


def same(rec, case, d, keys):
    w = [contract(*k) for k in keys]
    g = list(zip(dates(d['expiry_date']), dates(d['settlement_date']), dates(d['effective_date']), dates(d['maturity_date'])))
    return rec.check(len(d) == len(keys) and all(x == (a, b, b, c) for x, (a, b, c) in zip(g, w)), 'contract', case, lambda: '%r, expected %r' % (g, w))


def do_tick(u, rec):
    for y, m in itertools.product(range(u['lo'], u['lo'] + 10), (3, 6, 9, 12)):
        c = CODE[m]
        sp = ['IR%s%04d' % (c, y), 'ir%s%04d' % (c.lower(), y), ' IR%s%02d ' % (c, y % 100), 'IR%s%02d' % (c, y % 100), 'ir%s%02d' % (c, y % 100)] + (['IR%s%d' % (c, y % 10), 'ir%s%d ' % (c.lower(), y % 10)] if 2020 <= y < 2030 else [])
        for s in sp + [None]:
            px = 95. + m / 10
            df = pd.DataFrame({'ticker': [s], 'price': [px]}) if s else pd.DataFrame({'months': [m], 'years': [y], 'price': [px]})
            case = dict(ticker=s, year=y, month=m)
            rec.state(repr(case))
            before = df.copy(deep=True)
            ok, d = rec.call('raises', case, asx, df)
            if ok:
                same(rec, case, d, [(y, m)])
                rec.check(close(float(d['futures_rate'].iloc[0]), (100 - px) / 100), 'futures_rate', case, lambda: '%r' % d['futures_rate'].iloc[0])
                rec.check(df.equals(before), 'mutated', case, lambda: 'the input became %r' % df.to_dict())
                rec.trace()
                rec.outcome(str(contract(y, m)))


def do_bad(u, rec):
    bad = ['IR' + c + '4' for c in 'ABCDEFGIJKLNOPQRSTVWXY'] + ['IRH', 'IRH123', 'IRH20244', 'IRHX', 'IRH-4', 'IRH 4', 'IRH2X', 'IRH4.0', '', 'I', 'IR', 'IBH4', 'YBH4', 'H4', 'IRH4H4', 'IRHH4', '4HRI', 'IR4', 'IRM02x4']
    for b, others in itertools.product(bad, ([], ['IRH4'], ['IRM24', 'IRH2025'])):
        for pos in range(len(others) + 1):
            t = others[:pos] + [b] + others[pos:]
            rec.state(repr(t))
            rec.step()
            try:
                d = asx(pd.DataFrame({'ticker': t, 'price': [95.] * len(t)}))
                rec.fail('accepted', dict(tickers=t), 'gives %r' % list(d['settlement_date']))
            except (ValueError, AssertionError, KeyError, TypeError):
                rec.outcome('rejected', b)


KEYS = [(2024, 9), (2024, 12), (2025, 3), (2026, 6), (2029, 12)]


def do_seq(u, rec):
    for n in range(1, u['n'] + 1):
        for seq in itertools.product(KEYS, repeat=n):
            if seq[0] != KEYS[u['first']]:
                continue
            for form in ('ticker', 'months'):
                case = dict(contracts=seq, form=form)
                rec.state(repr(case))
                t = ['IR%s%s' % (CODE[m], [str(y), str(y)[2:], str(y)[3:]][(i + n) % 3]) for i, (y, m) in enumerate(seq)]
                df = pd.DataFrame({'ticker': t} if form == 'ticker' else {'months': [m for _, m in seq], 'years': [y for y, _ in seq]})
                ok, d = rec.call('raises', case, asx, df)
                if ok:
                    same(rec, case, d, seq)
                    rec.trace()
                    rec.outcome(repr(seq))


def do_strip(u, rec):
    cd = date(2024, 7, 1)
    nodes0 = [[(31, .04), (92, .042)], [(92, .0435)] + [(30, .04)], [(10, .03), (200, .045), (365, .05)]][u['cash']]
    if len(nodes0) < 2:
        nodes0.append((1, .04))
    nodes0.sort()
    yb = ['ACT_ACT', 'ACT_365', 'ACT_365'][u['cash']]
    cdf = pd.DataFrame({'maturity_date_years': [float(ref_years(yb, cd, cd + D(n))) for n, _ in nodes0], 'maturity_date_discount_factor': [1 / (1 + r * n / 365) for n, r in nodes0]})
    cb = cdf.copy(deep=True)
    K = [(2024, 9), (2024, 12), (2025, 3), (2025, 6), (2025, 9)][:u['n']]
    PX = {k: 95.5 + [.11, .33, 0, .44, .22][i] for i, k in enumerate(K)}  # neither rising nor falling along the strip
    CX = {k: [0, 1.5, -2, 4, 7][i] for i, k in enumerate(K)}
    for n in range(1, len(K) + 1):
        for sub in itertools.permutations(K, n):
            for form, conv in itertools.product(('price', 'rate', 'both', 'forward'), (False, True)):
                case = dict(cash=u['cash'], contracts=sub, form=form, convexity=conv)
                rec.state(repr(case))
                con = [contract(*k) for k in sub]
                df = pd.DataFrame({'effective_date': [ts(c[1]) for c in con], 'maturity_date': [ts(c[2]) for c in con]})
                if form in ('price', 'both'):
                    df['price'] = [PX[k] for k in sub]
                if form in ('rate', 'both'):
                    df['futures_rate'] = [(100 - PX[k]) / 100 for k in sub]
                if form == 'forward':
                    df['futures_rate'] = .9
                    df['forward_rate'] = [(100 - PX[k]) / 100 - (CX[k] / 1e4 if conv else 0) for k in sub]
                if conv:
                    df['convexity_bps'] = [CX[k] for k in sub]
                before = df.copy(deep=True)
                ok, d = rec.call('raises', case, boot_fut, df, ts(cd), cdf, DayCountBasis.ACT_365, DayCountBasis[yb])
                if not ok:
                    continue
                rec.check(df.equals(before) and list(df.columns) == list(before.columns) and cdf.equals(cb), 'mutated', case, lambda: 'the input became %r' % df.to_dict())
                X = list(cdf['maturity_date_years'])
                Y = [math.log(v) for v in cdf['maturity_date_discount_factor']]
                order = sorted(sub)
                rec.check(dates(d['effective_date']) == [contract(*k)[1] for k in order], 'strip_rows', case, lambda: '%r' % list(d['effective_date']))
                for i, k in enumerate(order):
                    _, e, m = contract(*k)
                    x, y = float(ref_years(yb, cd, e)), float(ref_years('ACT_365', e, m))
                    f = (100 - PX[k]) / 100 - (CX[k] / 1e4 if conv else 0)
                    le = line(X, Y, x)
                    lm = le - math.log(1 + f * y)
                    r = d.iloc[i]
                    rec.check(close(float(r['effective_date_discount_factor']), math.exp(le), 1e-11) and close(float(r['maturity_date_discount_factor']), math.exp(lm), 1e-11), 'strip', dict(case, contract=k),
                              lambda: '%r %r, expected %r %r' % (r['effective_date_discount_factor'], r['maturity_date_discount_factor'], math.exp(le), math.exp(lm)))
                    rec.check(close(float(r['forward_rate']), f) and close(float(r['period_years']), y) and close(float(r['effective_date_years']), x), 'forward_rate', dict(case, contract=k), lambda: '%r' % r.to_dict())
                    X.append(float(ref_years(yb, cd, m)))
                    Y.append(lm)
                rec.trace()
                rec.outcome(round(lm, 12))


def line(X, Y, x):
    p = sorted(zip(X, Y))
    i = min(max(sum(1 for a, _ in p if a < x), 1), len(p) - 1)
    (a, b), (c, d) = p[i - 1], p[i]
    return b + (d - b) * (x - a) / (c - a)
