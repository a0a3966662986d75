"""C04: stubs and user specified dates (first_period_end / last_period_start / first_stub / last_stub) are honoured, the rest stays on the grid."""
import itertools
from datetime import date, timedelta
import pandas as pd
from frm.utils.schedule import make_schedule, BaseSchedule
from frm.enums.utils import PeriodFreq, RollConv, Stub
from mc.ref.sched import Cal, schedule, boundaries, grid, is_exact, Rejected
from mc.checks.c03 import CALS, compare, dr_enum

D = date
BOUNDS = {
    'quick': '5 start dates x {MONTHLY,QUARTERLY,SEMIANNUAL,ANNUAL,WEEKLY,_28_DAYS} x 4 terms (whole, broken, shorter than a period) x every first/last stub pair; '
             'first_period_end and last_period_start ranging (singly, jointly, and with a SHORT/LONG stub type on the other side) over every grid date from either side, its +-1/+9 day neighbours, and the start/end themselves; '
             'x roll {UNADJUSTED, FOLLOWING, MODIFIED_FOLLOWING, PRECEDING} x roll-user-dates x day roll {none, 15, EOM} x 2 calendars',
    'thorough': 'as quick with 12 start dates, 7 terms, all 5 conventions'}
ASSUMPTIONS = ['LONG stub on a term that is a whole number of periods is left unspecified (there is no stub to lengthen)',
               'first_period_end on or after last_period_start (unless equal) is rejected or unspecified',
               'when a user date coincides with a date of a generated schedule, that schedule is used (documented)']
STUBS = ['DEFAULT', 'NONE', 'SHORT', 'LONG']


def starts(tier):
    q = [D(2024, 1, 15), D(2023, 12, 31), D(2024, 2, 29), D(2024, 1, 31), D(2023, 12, 30)]
    return q if tier == 'quick' else q + [D(2024, 1, 1), D(2024, 3, 31), D(2023, 11, 30), D(2024, 1, 20), D(2024, 2, 28), D(2024, 3, 29), D(2024, 4, 1)]


def terms(st, freq, tier):
    n = {'MONTHLY': 5, 'QUARTERLY': 4, 'SEMIANNUAL': 3, 'ANNUAL': 3, 'WEEKLY': 5, '_28_DAYS': 4}[freq]
    out = [grid(st, n, freq), grid(st, n - 1, freq) + timedelta(3), grid(st, n - 2, freq) - timedelta(2), st + timedelta(4)]
    if tier != 'quick':
        out += [grid(st, 1, freq), grid(st, 2, freq) + timedelta(1), grid(st, 2, freq) + timedelta(17)]
    return sorted({e for e in out if e > st})


def units(tier):
    out = []
    for freq in ['ANNUAL', 'SEMIANNUAL', 'QUARTERLY', 'MONTHLY', '_28_DAYS', 'WEEKLY']:
        for st in starts(tier):
            for en in terms(st, freq, tier):
                out.append(dict(freq=freq, start=str(st), end=str(en), tier=tier))
    return out


def user_dates(st, en, freq, conv, dr, flag, cal):
    out = {st, en}
    for direction in ('forward', 'backward'):
        b = boundaries(st, en, freq, direction, conv, dr, flag, cal)
        out |= set(b)
        for x in b[:3] + b[-3:]:
            out |= {x - timedelta(1), x + timedelta(1), x + timedelta(9)}
    return sorted(x for x in out if st <= x <= en)


def run_unit(u, rec):
    freq, tier = u['freq'], u['tier']
    f = PeriodFreq[freq]
    st, en = date.fromisoformat(u['start']), date.fromisoformat(u['end'])
    rolls = ['UNADJUSTED', 'FOLLOWING', 'MODIFIED_FOLLOWING', 'PRECEDING'] + (['MODIFIED_PRECEDING'] if tier != 'quick' else [])
    drl = ['UNADJUSTED'] if freq in ('WEEKLY', '_28_DAYS') else ['UNADJUSTED', '15', 'EOM']
    last_case = None
    for conv, dr, flag, cn in itertools.product(rolls, drl, (False, True), ('monfri', 'hol')):
        cal = CALS[cn]
        npcal = cal.np()
        base = dict(start=str(st), end=str(en), freq=freq, roll=conv, day_roll=dr, roll_user=flag, cal=cn)
        kw = dict(freq=f, roll_conv=RollConv[conv], day_roll=dr_enum(dr), roll_user_specified_dates=flag, cal=npcal)
        T = pd.Timestamp

        def one(case, fpe, lps, fs, ls, must_reject=False):
            args = dict(kw)
            if fpe is not None:
                args['first_period_end'] = T(fpe)
            if lps is not None:
                args['last_period_start'] = T(lps)
            if fs is not None:
                args['first_stub'] = Stub[fs]
            if ls is not None:
                args['last_stub'] = Stub[ls]
            rec.state(*case.values())
            try:
                want = schedule(st, en, freq, conv, dr, fpe, lps, fs or 'DEFAULT', ls or 'DEFAULT', flag, cal)
            except Rejected:
                want = None
            if want is None:
                rec.step()
                if fpe is None and lps is None:     # two stubs without user dates are documented as an error
                    try:
                        make_schedule(T(st), T(en), **args)
                        rec.fail('ambiguous_stubs_accepted', case, 'two explicit stubs without dates were accepted')
                    except Exception:
                        pass
                return
            if any(a >= b for a, b in zip(want, want[1:])):
                return
            ok, df = rec.call('raises', case, make_schedule, T(st), T(en), **args)
            if ok:
                compare(rec, case, df, want)
                if not flag:
                    if fpe is not None:
                        rec.check(pd.Timestamp(df['period_end'].iloc[0]).date() == fpe, 'first_period_end', case, lambda: 'first period ends %s' % df['period_end'].iloc[0])
                    if lps is not None:
                        rec.check(pd.Timestamp(df['period_start'].iloc[-1]).date() == lps, 'last_period_start', case, lambda: 'last period starts %s' % df['period_start'].iloc[-1])

        # explicit stub types
        for fs, ls in itertools.product(STUBS, STUBS):
            if fs == 'LONG' or ls == 'LONG':
                if is_exact(st, en, freq, 'backward' if ls in ('DEFAULT', 'NONE') else 'forward', dr):
                    continue
            if dr != 'UNADJUSTED' and 'LONG' in (fs, ls):
                continue
            one(dict(base, first_stub=fs, last_stub=ls), None, None, fs, ls)
        # user dates
        ud = user_dates(st, en, freq, conv, dr, flag, cal)
        F = [x for x in ud if x > st]
        L = [x for x in ud if x < en]
        for x in F:
            one(dict(base, fpe=str(x)), x, None, None, None)
        for x in L:
            one(dict(base, lps=str(x)), None, x, None, None)
        # a user date on one side and a stub type on the other
        if dr == 'UNADJUSTED':
            for stub in ('SHORT', 'LONG'):
                for x in F:
                    if not (stub == 'LONG' and x < en and is_exact(x, en, freq, 'forward', dr)):
                        one(dict(base, fpe=str(x), last_stub=stub), x, None, None, stub)
                for x in L:
                    if not (stub == 'LONG' and st < x and is_exact(st, x, freq, 'backward', dr)):
                        one(dict(base, lps=str(x), first_stub=stub), None, x, stub, None)
        if flag and conv in ('FOLLOWING', 'PRECEDING'):
            continue
        near_f = sorted(F, key=lambda x: x - st)[:7]
        near_l = sorted(L, key=lambda x: en - x)[:7]
        for x in near_f:
            for y in near_l:
                if x <= y:
                    one(dict(base, fpe=str(x), lps=str(y)), x, y, None, None)
                    last_case = dict(base, fpe=str(x), lps=str(y))
    rec.sample(last_case or base)
