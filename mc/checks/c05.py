"""C05: payment dates and period columns are exact functions of the schedule, whatever sequence of column operations produced them."""
import itertools
from datetime import date
import numpy as np, pandas as pd
from frm.utils.schedule import BaseSchedule, NotionalSchedule, CouponSchedule
from frm.enums.utils import PeriodFreq, RollConv, TimingConvention, DayCountBasis, ExchangeNotionals
from mc.ref.sched import bd_offset
from mc.ref.dates import ref_days, ref_years
from mc.checks.c03 import CALS, dates_of

D = date
BOUNDS = {
    'quick': 'payment dates: 8 schedules x 5 roll conventions x 3 calendars x delays -3..5,10 x arrears/advance x {BaseSchedule, CouponSchedule with/without initial exchange}; '
             'operation sequences: all sequences of length <= 3 over 9 column operations on 4 schedule objects, every column compared after every step',
    'thorough': 'as quick with delays -12..12 and all operation sequences of length <= 4'}
ASSUMPTIONS = ['a payment delay counts business days; with an UNADJUSTED schedule and zero delay the payment date is the period date itself']
SCHEDS = [(D(2024, 1, 15), D(2024, 7, 15), 'MONTHLY'), (D(2023, 12, 31), D(2024, 12, 31), 'QUARTERLY'), (D(2024, 2, 29), D(2025, 2, 28), 'SEMIANNUAL'),
          (D(2023, 9, 30), D(2024, 3, 2), 'MONTHLY'), (D(2023, 12, 22), D(2024, 1, 5), 'DAILY'), (D(2023, 12, 23), D(2024, 2, 3), 'WEEKLY'),
          (D(2024, 1, 31), D(2026, 1, 31), 'ANNUAL'), (D(2023, 12, 30), D(2024, 3, 30), 'ZERO_COUPON')]
ROLLS = ['UNADJUSTED', 'FOLLOWING', 'PRECEDING', 'MODIFIED_FOLLOWING', 'MODIFIED_PRECEDING']
OPS = [('pay', 0, 'IN_ARREARS', 'payment_date'), ('pay', 2, 'IN_ARREARS', 'payment_date'), ('pay', -2, 'IN_ADVANCE', 'payment_date'), ('pay', 1, 'IN_ADVANCE', 'fixing_date'),
       ('days', 'ACT_360'), ('days', '_30_360'), ('years', 'ACT_365'), ('years', 'ACT_ACT'), ('years', '_30E_360_ISDA')]


def units(tier):
    out = [dict(kind='dates', sched=i, roll=r, tier=tier) for i in range(len(SCHEDS)) for r in ROLLS]
    out += [dict(kind='ops', obj=k, first=i, tier=tier) for k in ('base', 'base_hol', 'coupon', 'coupon_both') for i in range(len(OPS))]
    return out


def check_pay(rec, case, df, col, delay, timing, conv, cal):
    src = df['period_end' if timing == 'IN_ARREARS' else 'period_start']
    rec.trace()
    if col not in df.columns:
        return rec.fail('missing_column', case, '%s not in %s' % (col, list(df.columns)))
    for i, (d, g) in enumerate(zip(src, df[col])):
        if pd.isna(d):
            rec.check(pd.isna(g), 'nat_row', case, lambda: 'row %d without period has payment date %s' % (i, g))
            continue
        want = bd_offset(pd.Timestamp(d).date(), delay, conv, cal)
        if pd.isna(g) or pd.Timestamp(g) != pd.Timestamp(want):
            rec.fail('payment_date', case, 'row %d %s: got %s want %s' % (i, d, g, want))
            return
        rec.outcome((want - pd.Timestamp(d).date()).days)


def run_unit(u, rec):
    if u['kind'] == 'dates':
        st, en, freq = SCHEDS[u['sched']]
        conv = u['roll']
        delays = list(range(-3, 6)) + [10] if u['tier'] == 'quick' else list(range(-12, 13))
        for cn, cal in CALS.items():
            b = BaseSchedule(st, en, PeriodFreq[freq], roll_conv=RollConv[conv], cal=cal.np())
            before = b.df[['period_start', 'period_end']].copy()
            for delay, timing in itertools.product(delays, ('IN_ARREARS', 'IN_ADVANCE')):
                case = dict(sched=u['sched'], roll=conv, cal=cn, delay=delay, timing=timing, via='BaseSchedule')
                rec.state(*case.values())
                ok, _ = rec.call('raises', case, b.add_payment_dates, delay, TimingConvention[timing])
                if ok:
                    check_pay(rec, case, b.df, 'payment_date', delay, timing, conv, cal)
                    rec.check(b.df[['period_start', 'period_end']].equals(before), 'periods_changed', case, 'adding payment dates changed the periods')
                for ex in ('NEITHER', 'BOTH'):
                    case = dict(case, via='CouponSchedule', ex=ex)
                    rec.state(*case.values())
                    nd = delay - 1
                    ok, c = rec.call('raises', case, CouponSchedule, st, en, PeriodFreq[freq], roll_conv=RollConv[conv], cal=cal.np(), exchange_notionals=ExchangeNotionals[ex],
                                     coupon_payment_delay=delay, coupon_payment_timing=TimingConvention[timing], notional_payment_delay=nd)
                    if ok:
                        check_pay(rec, case, c.df, 'coupon_payment_date', delay, timing, conv, cal)
                        body = c.df.iloc[1:] if ex == 'BOTH' else c.df
                        check_pay(rec, dict(case, col='notional'), body, 'notional_payment_date', nd, 'IN_ARREARS', conv, cal)
        rec.sample(case)
        return
    # operation sequences
    conv, cn = ('MODIFIED_FOLLOWING', 'monfri') if u['obj'] == 'base' else ('FOLLOWING', 'hol')
    cal = CALS[cn]
    depth = 3 if u['tier'] == 'quick' else 4
    st, en, freq = SCHEDS[3]

    def make():
        kw = dict(roll_conv=RollConv[conv], cal=cal.np())
        if u['obj'].startswith('base'):
            return BaseSchedule(st, en, PeriodFreq[freq], **kw)
        return CouponSchedule(st, en, PeriodFreq[freq], exchange_notionals=ExchangeNotionals.BOTH if u['obj'] == 'coupon_both' else ExchangeNotionals.NEITHER, **kw)

    def verify(case, obj, exp):
        df = obj.df
        for col, op in exp.items():
            if op[0] == 'pay':
                check_pay(rec, case, df, col, op[1], op[2], conv, cal)
                continue
            if col not in df.columns:
                rec.fail('missing_column', case, '%s missing' % col)
                continue
            fn = ref_days if op[0] == 'days' else ref_years
            S, E = df['period_start'], df['period_end']
            n = len(df)
            for i in range(n):
                if pd.isna(S.iloc[i]):
                    rec.check(pd.isna(df[col].iloc[i]), 'nat_row', case, 'row without a period has %s=%s' % (col, df[col].iloc[i]))
                    continue
                # the last period ends on the termination date
                want = fn(DayCountBasis[op[1]].name, S.iloc[i].date(), E.iloc[i].date(), i == n - 1)
                if not abs(df[col].iloc[i] - want) < 1e-12:
                    rec.fail('period_column', case, '%s row %d: got %r want %r' % (col, i, df[col].iloc[i], want))
                    break
        rec.trace()

    def rec_ops(seq):
        # rebuild the object (objects are mutable: one path = one object)
        obj = make()
        p0 = obj.df[['period_start', 'period_end']].copy()
        exp = {}
        for op in seq:
            case = dict(obj=u['obj'], ops=[list(map(str, o)) for o in seq])
            if op[0] == 'pay':
                ok, _ = rec.call('raises', case, obj.add_payment_dates, op[1], TimingConvention[op[2]], op[3])
                exp[op[3]] = op
            elif op[0] == 'days':
                ok, _ = rec.call('raises', case, obj.add_period_daycount, DayCountBasis[op[1]])
                exp['period_daycount'] = op
            else:
                ok, _ = rec.call('raises', case, obj.add_period_yearfrac, DayCountBasis[op[1]])
                exp['period_yearfrac'] = op
            if not ok:
                return
        rec.state(u['obj'], seq)
        verify(case, obj, exp)
        rec.check(obj.df[['period_start', 'period_end']].equals(p0), 'periods_changed', case, 'column operations changed the periods')
        rec.check(len(set(obj.df.columns)) == len(obj.df.columns), 'duplicate_column', case, lambda: 'columns %s' % list(obj.df.columns))
        if len(seq) < depth:
            for o in OPS:
                rec_ops(seq + (o,))
        else:
            rec.sample(case)

    rec_ops((OPS[u['first']],))
