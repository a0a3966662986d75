"""C10: business day calendars: the combined calendar is open exactly where every component is open."""
import itertools, os, pickle
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.utils.business_day_calendar import get_busdaycal, CCY_HOLIDAY, LOCALE_HOLIDAY
from frm.utils.tenor import workday, calc_implied_business_day_offset
from mc.ref.sched import Cal, bd_offset

D = date
BOUNDS = {
    'quick': 'every currency and locale key alone (case variants, str/list forms), every pair of currencies, strips of 4, 6, 9 and 15 keys; every triple of 9 mixed currency/locale keys in every order and with duplicates; '
             'each calendar compared on every day 1990-2099; workday / implied offset for every day of 2 years x offsets -5..10 on 4 calendars',
    'thorough': 'as quick with every pair over all keys'}
ASSUMPTIONS = ['the holiday lists shipped in CCY_HOLIDAY.pkl / LOCALE_HOLIDAY.pkl are taken as data']
MIX = ['USD', 'GBP', 'ILS', 'SAR', 'AUD', 'JP-TOYKO', 'European_Central_Bank', 'AE-DUBAI', 'UK-LONDON']


def keys():
    return sorted(CCY_HOLIDAY) + sorted(LOCALE_HOLIDAY)


def units(tier):
    out = [dict(kind='single', keys=keys()[i:i + 6], tier=tier) for i in range(0, len(keys()), 6)]
    ks = sorted(CCY_HOLIDAY) if tier == 'quick' else keys()
    out += [dict(kind='pairs', first=k, tier=tier) for k in ks]
    out += [dict(kind='many', first=i, tier=tier) for i in range(0, len(CCY_HOLIDAY), 4)]
    out += [dict(kind='triples', first=k, tier=tier) for k in MIX]
    out += [dict(kind='workday', cal=k, tier=tier) for k in (['USD'], ['ILS', 'USD'], ['SAR'], ['AUD', 'JPY', 'GBP'])]
    return out


_open = {}


def span(tier):
    return (np.datetime64('1990-01-01'), np.datetime64('2100-01-01')) if tier == 'quick' else (np.datetime64('1990-01-01'), np.datetime64('2100-01-01'))


def ref_open(k, tier):
    """Boolean vector: is key k open on each day, from the raw data."""
    if (k, tier) not in _open:
        obj = CCY_HOLIDAY[k] if k in CCY_HOLIDAY else LOCALE_HOLIDAY[k]
        a, b = span(tier)
        days = np.arange(a, b)
        wd = (days.astype('int64') + 3) % 7      # 1970-01-01 was a Thursday
        o = ~np.isin(wd, sorted(obj.weekend))
        hol = np.array([np.datetime64(h) for h in dict.keys(obj)], dtype='datetime64[D]')
        o &= ~np.isin(days, hol)
        _open[k, tier] = o
    return _open[k, tier]


def cmp_cal(rec, case, arg, ks, tier):
    ok, cal = rec.call('raises', case, get_busdaycal, arg)
    if not ok:
        return
    want = np.logical_and.reduce([ref_open(k, tier) for k in ks])
    a, b = span(tier)
    got = np.is_busday(np.arange(a, b), busdaycal=cal)
    rec.trace()
    rec.state(repr(arg))
    if not np.array_equal(got, want):
        i = int(np.nonzero(got != want)[0][0])
        rec.fail('open_days', case, '%s: open=%s, components say %s' % (a + i, got[i], want[i]))
    rec.outcome(int(want.sum()))


def run_unit(u, rec):
    tier = u['tier']
    k = u['kind']
    if k == 'single':
        for key in u['keys']:
            for arg in (key, key.lower(), key.upper(), [key], [key.lower(), key.upper()]):
                cmp_cal(rec, dict(keys=repr(arg)), arg, [key], tier)
        rec.sample(dict(keys=key))
        for bad in ('XXX', ['USD', 'NOWHERE'], 'US', ''):
            rec.step()
            try:
                get_busdaycal(bad)
                rec.fail('unknown_accepted', dict(keys=repr(bad)), 'unknown key accepted')
            except Exception:
                pass
        a, b = span(tier)
        dflt = np.is_busday(np.arange(a, b), busdaycal=get_busdaycal(None))
        wd = (np.arange(a, b).astype('int64') + 3) % 7
        rec.check(np.array_equal(dflt, wd < 5), 'default', dict(keys=None), 'no keys must mean Monday to Friday without holidays')
    elif k == 'pairs':
        ks = sorted(CCY_HOLIDAY) if tier == 'quick' else keys()
        for other in ks:
            arg = [u['first'], other]
            keep = list(arg)
            cmp_cal(rec, dict(keys=arg), arg, arg, tier)
            rec.check(arg == keep, 'input_mutated', dict(keys=keep), lambda: 'argument became %r' % arg)
    elif k == 'many':
        ks = sorted(CCY_HOLIDAY) + sorted(LOCALE_HOLIDAY)
        for n in (4, 6, 9, 15):
            arg = [ks[(u['first'] + 3 * i) % len(ks)] for i in range(n)]
            cmp_cal(rec, dict(keys=arg), list(arg), arg, tier)
    elif k == 'triples':
        for a, b in itertools.permutations([x for x in MIX if x != u['first']], 2):
            cmp_cal(rec, dict(keys=[u['first'], a, b]), [u['first'], a.lower(), b], [u['first'], a, b], tier)
        for a in MIX:
            cmp_cal(rec, dict(keys=[u['first'], a, u['first']]), [u['first'], a, u['first']], [u['first'], a], tier)
    else:
        cal = get_busdaycal(list(u['cal']))
        hol = {pd.Timestamp(h).date() for h in cal.holidays}
        ref = Cal(''.join('1' if x else '0' for x in cal.weekmask), hol)
        days = [D(2023, 6, 1) + timedelta(i) for i in range(730)]
        for off in range(-5, 11):
            want = [bd_offset(d, off, 'FOLLOWING', ref) for d in days]
            ok, g = rec.call('raises', dict(cal=u['cal'], offset=off), workday, pd.DatetimeIndex([pd.Timestamp(d) for d in days]), off, cal)
            if ok:
                got = [pd.Timestamp(x).date() for x in g]
                rec.trace()
                bad = [(str(d), str(x), str(w)) for d, x, w in zip(days, got, want) if x != w]
                rec.check(not bad and len(got) == len(want), 'workday', dict(cal=u['cal'], offset=off), lambda: 'date, got, want: %s' % bad[:3])
            for d, w in zip(days[::7], want[::7]):
                case = dict(cal=u['cal'], offset=off, date=str(d))
                rec.state(*map(str, case.values()))
                ok, g = rec.call('raises', case, workday, pd.Timestamp(d), off, cal)
                if ok:
                    rec.check(pd.Timestamp(g).date() == w, 'workday', case, lambda: 'got %s want %s' % (g, w))
                if off >= 0 and ref.bd(d):
                    ok, g = rec.call('raises', dict(case, fn='implied'), calc_implied_business_day_offset, pd.Timestamp(d), pd.Timestamp(w), cal)
                    if ok:
                        rec.check(g == off, 'implied_offset', case, lambda: '%s -> %s is %s business days, want %d' % (d, w, g, off))
