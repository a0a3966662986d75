"""C03: the periods of a schedule partition [start, end] on a regular, non-drifting, business-day adjusted grid."""
import itertools
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.utils.schedule import make_schedule, generate_date_schedule, BaseSchedule
from frm.enums.utils import PeriodFreq, RollConv, DayRoll, Stub
from mc.ref.sched import Cal, schedule, boundaries, FREQ

D = date
CALS = {'monfri': Cal(),
        'hol': Cal('1111100', [D(2023, 12, 25), D(2023, 12, 26), D(2024, 1, 1), D(2024, 1, 31), D(2024, 2, 1), D(2024, 3, 29), D(2024, 4, 1),
                               D(2024, 5, 31), D(2024, 7, 1), D(2024, 8, 30), D(2025, 1, 1), D(2025, 2, 28)]),
        'sunthu': Cal('1111001', [D(2024, 4, 10), D(2024, 6, 30)])}
BOUNDS = {
    'quick': '18 start dates (month ends, leap day, weekends, holidays) x terms from 1 day to 26 months (incl. whole and broken numbers of periods, +-1..3 days) x 8 frequencies x '
             '5 roll conventions x day roll {none,15,30,31,EOM} x roll-user-dates flag x 3 calendars (weekend/holiday patterns); long schedules of 20..400 periods (to 70 years)',
    'thorough': 'as quick with 4 starts for the long schedules, and every start date of 2023-12-20..2024-03-05 and all day rolls 1..31'}
ASSUMPTIONS = ['day roll only combined with monthly or longer frequencies', 'term shorter than 27 months, except for the long schedules']
ROLLS = ['UNADJUSTED', 'FOLLOWING', 'PRECEDING', 'MODIFIED_FOLLOWING', 'MODIFIED_PRECEDING']


def starts(tier):
    if tier == 'quick':
        return [D(2023, 8, 31), D(2023, 9, 30), D(2023, 11, 30), D(2023, 12, 25), D(2023, 12, 29), D(2023, 12, 30), D(2023, 12, 31), D(2024, 1, 1), D(2024, 1, 2),
                D(2024, 1, 15), D(2024, 1, 20), D(2024, 1, 28), D(2024, 1, 30), D(2024, 1, 31), D(2024, 2, 28), D(2024, 2, 29), D(2024, 3, 1), D(2024, 3, 31)]
    return [D(2023, 12, 20) + timedelta(i) for i in range(77)] + [D(2023, 8, 31), D(2023, 9, 30), D(2024, 3, 31), D(2024, 6, 29)]


def ends(start, freq, tier):
    from mc.ref.sched import grid
    if freq == 'ZERO_COUPON':
        return [start + timedelta(n) for n in (1, 2, 30, 366)]
    ks = {'DAILY': [1, 2, 3, 5, 9], 'WEEKLY': [1, 2, 4, 6], '_28_DAYS': [1, 3, 6], 'MONTHLY': [1, 2, 5, 13], 'QUARTERLY': [1, 2, 4, 8], 'SEMIANNUAL': [1, 2, 4], 'ANNUAL': [1, 2]}[freq]
    off = [0, 1, 2, -1] if freq != 'DAILY' else [0]
    if freq not in ('DAILY', 'WEEKLY'):
        off += [12, -9]
    out = []
    for k in ks:
        for o in off:
            e = grid(start, k, freq) + timedelta(o)
            if e > start and e not in out:
                out.append(e)
    # last day of the month for end-of-month alignment
    e = grid(start, ks[-1], freq)
    from mc.ref.dates import dim
    eom = e.replace(day=dim(e.year, e.month))
    if eom > start and eom not in out:
        out.append(eom)
    return out


LONG = {'ANNUAL': (20, 45, 70), 'SEMIANNUAL': (45, 100), 'QUARTERLY': (45, 121), 'MONTHLY': (45, 61, 125, 361), '_28_DAYS': (45, 131), 'WEEKLY': (53, 157), 'DAILY': (45, 130, 400)}


def units(tier):
    out = []
    for freq in ['ANNUAL', 'SEMIANNUAL', 'QUARTERLY', 'MONTHLY', '_28_DAYS', 'WEEKLY', 'DAILY', 'ZERO_COUPON']:
        ss = starts(tier)
        for i in range(0, len(ss), 3):
            out.append(dict(freq=freq, starts=[str(s) for s in ss[i:i + 3]], tier=tier))
    for freq in LONG:
        out += [dict(kind='long', freq=freq, start=str(s), tier=tier) for s in (D(2023, 8, 31), D(2024, 1, 30), D(2024, 2, 29), D(2024, 1, 15))[:2 if tier == 'quick' else 4]]
    return out


def drs(freq, tier):
    if FREQ.get(freq, ('d', 0))[0] != 'm':
        return ['UNADJUSTED']
    return ['UNADJUSTED', '15', '30', '31', 'EOM'] if tier == 'quick' else ['UNADJUSTED', 'EOM'] + [str(i) for i in range(1, 32)]


def dr_enum(dr):
    return DayRoll[dr] if dr in ('UNADJUSTED', 'EOM') else DayRoll['_' + dr]


def dates_of(col):
    return [pd.Timestamp(x).date() for x in col]


def compare(rec, case, df, want):
    """period_start/period_end against the reference boundaries, plus the partition invariants stated by the property."""
    s, e = dates_of(df['period_start']), dates_of(df['period_end'])
    rec.trace()
    ok = rec.check(len(s) >= 1 and s[1:] == e[:-1], 'gap_or_overlap', case, lambda: 'periods %s' % list(zip(map(str, s), map(str, e))))
    ok &= rec.check(all(a < b for a, b in zip(s, e)), 'empty_or_reversed_period', case, lambda: 'periods %s' % list(zip(map(str, s), map(str, e))))
    got = s + e[-1:]
    if ok and got != want:
        rec.fail('boundaries', case, 'got %s want %s' % ([str(x) for x in got], [str(x) for x in want]))
    rec.outcome(len(want), (want[-1] - want[0]).days)
    return ok


def do_long(u, rec):
    freq, f, st = u['freq'], PeriodFreq[u['freq']], date.fromisoformat(u['start'])
    from mc.ref.sched import grid
    for n, o in itertools.product(LONG[freq], (0, 3)):
        en = grid(st, n, freq) + timedelta(o if freq != 'DAILY' else 0)
        for conv, dr, cn, way in itertools.product(('UNADJUSTED', 'MODIFIED_FOLLOWING', 'PRECEDING'), ('UNADJUSTED', 'EOM') if FREQ.get(freq, ('d', 0))[0] == 'm' else ('UNADJUSTED',), ('monfri', 'hol'), ('backward', 'forward')):
            want = boundaries(st, en, freq, way, conv, dr, False, CALS[cn])
            if any(a >= b for a, b in zip(want, want[1:])):
                continue
            case = dict(start=str(st), end=str(en), freq=freq, roll=conv, day_roll=dr, cal=cn, direction=way, long=True)
            rec.state(*case.values())
            ok, r = rec.call('raises', case, generate_date_schedule, pd.Timestamp(st), pd.Timestamp(en), f, way, RollConv[conv], dr_enum(dr), False, CALS[cn].np())
            if ok:
                compare(rec, case, dict(period_start=r[0], period_end=r[1]), want)
            if way == 'backward':
                ok, df = rec.call('raises', case, make_schedule, pd.Timestamp(st), pd.Timestamp(en), f, RollConv[conv], dr_enum(dr), cal=CALS[cn].np())
                if ok:
                    compare(rec, dict(case, via='make_schedule'), df, want)
    rec.sample(case)


def run_unit(u, rec):
    if u.get('kind') == 'long':
        return do_long(u, rec)
    freq, tier = u['freq'], u['tier']
    f = PeriodFreq[freq]
    npcals = {k: c.np() for k, c in CALS.items()}
    for st in map(date.fromisoformat, u['starts']):
        for en in ends(st, freq, tier):
            for conv, dr, flag, cn in itertools.product(ROLLS, drs(freq, tier), (False, True), CALS):
                if cn == 'sunthu' and (dr not in ('UNADJUSTED', 'EOM') or en.day % 2):
                    continue
                cal = CALS[cn]
                want = schedule(st, en, freq, conv, dr, flag=flag, cal=cal)
                if any(a >= b for a, b in zip(want, want[1:])):
                    continue            # the requested dates collapse onto one business day: no partition exists
                case = dict(start=str(st), end=str(en), freq=freq, roll=conv, day_roll=dr, roll_user=flag, cal=cn)
                rec.state(*case.values())
                kw = dict(freq=f, roll_conv=RollConv[conv], day_roll=dr_enum(dr), roll_user_specified_dates=flag, cal=npcals[cn])
                ok, df = rec.call('raises', case, make_schedule, pd.Timestamp(st), pd.Timestamp(en), **kw)
                if ok:
                    compare(rec, case, df, want)
                if freq != 'ZERO_COUPON' and conv in ('FOLLOWING', 'MODIFIED_FOLLOWING') and dr in ('UNADJUSTED', 'EOM'):
                    want_f = boundaries(st, en, freq, 'forward', conv, dr, flag, cal)
                    if all(a < b for a, b in zip(want_f, want_f[1:])):
                        ok, r = rec.call('raises', dict(case, direction='forward'), generate_date_schedule, pd.Timestamp(st), pd.Timestamp(en), f, 'forward',
                                         RollConv[conv], dr_enum(dr), flag, npcals[cn])
                        if ok:
                            compare(rec, dict(case, direction='forward'), dict(period_start=r[0], period_end=r[1]), want_f)
        rec.sample(case)
        # argument containers and the schedule object: date / datetime64 / Timestamp are equivalent; start >= end is rejected
        en = ends(st, freq, tier)[-1]
        want = schedule(st, en, freq)
        for s_arg, e_arg in ((st, en), (np.datetime64(st), np.datetime64(en)), (pd.Timestamp(st).to_pydatetime(), pd.Timestamp(en).to_pydatetime())):
            case = dict(start=str(st), end=str(en), freq=freq, arg=type(s_arg).__name__)
            ok, df = rec.call('raises', case, make_schedule, s_arg, e_arg, f)
            if ok:
                compare(rec, case, df, want)
            ok, b = rec.call('raises', dict(case, via='BaseSchedule'), BaseSchedule, s_arg, e_arg, f)
            if ok:
                compare(rec, dict(case, via='BaseSchedule'), b.df, want)
        for bad in (st, st - timedelta(3)):
            rec.step()
            try:
                make_schedule(pd.Timestamp(st), pd.Timestamp(bad), f)
                rec.fail('reversed_accepted', dict(start=str(st), end=str(bad), freq=freq), 'start >= end accepted')
            except Exception:
                pass
