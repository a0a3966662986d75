"""C06: notionals: exchange conventions, amortising schedules, conservation of principal."""
import itertools
from datetime import date
import numpy as np, pandas as pd
from frm.utils.schedule import NotionalSchedule, CouponSchedule
from frm.enums.utils import PeriodFreq, RollConv, TimingConvention, ExchangeNotionals
from mc.ref.sched import Cal, bd_offset, schedule
from mc.checks.c03 import CALS

D = date
BOUNDS = {
    'quick': '4 terms (1..4 periods) x exchange {NEITHER,START,END,BOTH} x every notional profile over the alphabet {100, 60, 0, -40, 100.25} of that many periods (all 5^n) '
             'plus scalars and wrong lengths x payment delay {0,2} (to 2 periods also -3) x arrears/advance x explicit initial exchange date {none, 3 days earlier} x {NotionalSchedule, CouponSchedule}',
    'thorough': 'terms up to 5 periods, delays {-1,0,2,5}'}
ASSUMPTIONS = ['in-advance notional payments keep the documented amounts and only move dates']
A = [100.0, 60.0, 0.0, -40.0, 100.25]
ST = D(2024, 1, 15)
ENDS = {1: D(2024, 4, 15), 2: D(2024, 7, 13), 3: D(2024, 10, 15), 4: D(2025, 1, 15), 5: D(2025, 4, 15)}


def units(tier):
    ns = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]
    return [dict(n=n, ex=ex, delay=dl, timing=t, tier=tier) for n in ns for ex in ('NEITHER', 'START', 'END', 'BOTH')
            for dl in ((0, 2, -3) if tier == 'quick' and n < 3 else (0, 2) if tier == 'quick' else (-1, 0, 2, 5)) for t in ('IN_ARREARS', 'IN_ADVANCE')]


def run_unit(u, rec):
    n, ex = u['n'], u['ex']
    cal = CALS['hol']
    conv = 'MODIFIED_FOLLOWING'
    b = schedule(ST, ENDS[n], 'QUARTERLY', conv, cal=cal)
    assert len(b) == n + 1, b
    kw0 = dict(freq=PeriodFreq.QUARTERLY, roll_conv=RollConv[conv], cal=cal.np(), exchange_notionals=ExchangeNotionals[ex], notional_payment_delay=u['delay'],
               notional_payment_timing=TimingConvention[u['timing']])
    src = b[1:] if u['timing'] == 'IN_ARREARS' else b[:-1]
    pay = [bd_offset(x, u['delay'], conv, cal) for x in src]
    inputs = [('vec', p) for p in itertools.product(A, repeat=n)] + [('scalar', (x,) * n) for x in A] + [('list', tuple(A[i % 5] for i in range(n)))]
    classes = [CouponSchedule, NotionalSchedule]
    init0 = D(2024, 1, 12)
    for (form, N), init in itertools.product(inputs, (None, init0)):
        cls = classes[0] if form == 'vec' else None
        for cls in ([CouponSchedule] if form == 'vec' and n > 2 else classes):
            arg = np.array(N) if form == 'vec' else (N[0] if form == 'scalar' else list(N))
            keep = np.array(N)
            kw = dict(kw0, notional_amount=arg)
            if init is not None:
                kw['initial_notional_exchange_date'] = pd.Timestamp(init)
            case = dict(cls=cls.__name__, n=n, ex=ex, form=form, notionals=list(N), init=str(init), delay=u['delay'], timing=u['timing'])
            rec.state(*map(str, case.values()))
            ok, s = rec.call('raises', case, cls, ST, ENDS[n], **kw)
            if not ok:
                continue
            rec.trace()
            df = s.df
            rows = []
            if ex in ('START', 'BOTH'):
                rows.append((None, None, init or ST, 0.0, -N[0]))
            for i in range(n):
                nxt = N[i] - N[i + 1] if i + 1 < n else (N[i] if ex in ('END', 'BOTH') else 0.0)
                rows.append((b[i], b[i + 1], pay[i], N[i], nxt))
            got = [(None if pd.isna(r.period_start) else r.period_start.date(), None if pd.isna(r.period_end) else r.period_end.date(),
                    None if pd.isna(r.notional_payment_date) else pd.Timestamp(r.notional_payment_date).date(), float(r.notional), float(r.notional_payment)) for r in df.itertuples()]
            if len(got) != len(rows) or any(g[:3] != w[:3] or abs(g[3] - w[3]) > 1e-9 or not abs(g[4] - w[4]) <= 1e-9 for g, w in zip(got, rows)):
                rec.fail('notional_rows', case, 'got %s want %s' % (got, rows))
            tot = df['notional_payment'].sum()
            target = {'BOTH': 0.0, 'START': -N[-1], 'END': N[0], 'NEITHER': N[0] - N[-1]}[ex]
            rec.check(abs(tot - target) < 1e-9, 'conservation', case, lambda: 'payments sum to %r, expected %r' % (tot, target))
            if form != 'scalar':
                rec.check(np.array_equal(np.asarray(arg, float), keep), 'input_mutated', case, 'notional_amount argument was modified')
            rec.outcome(tuple(round(g[4], 2) for g in got))
    rec.sample(case)
    # wrong lengths are rejected, never silently broadcast
    for m in range(2, 8):
        if m == n:
            continue
        case = dict(n=n, ex=ex, length=m)
        rec.step()
        rec.state(*case.values())
        try:
            CouponSchedule(ST, ENDS[n], **dict(kw0, notional_amount=np.full(m, 5.0)))
        except Exception:
            continue
        rec.fail('wrong_length_accepted', case, '%d notionals accepted for %d periods' % (m, n))
