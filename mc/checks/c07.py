"""C07: leg / swap cashflows, PV, accrued, split, buckets, par and target solves against a plain-Python reference."""
import itertools
from datetime import date, timedelta
import numpy as np, pandas as pd
import frm.utils
from frm.instruments.leg import FloatTermLeg, FloatRFRLeg
from frm.instruments.swap import Swap
from frm.enums import PayRcv, DayCountBasis
from frm.term_structures.zero_curve import ZeroCurve
from mc.ref.legs import RefLeg, curve, build_leg, build_schedule
from mc.checks.c03 import CALS

D = date
BOUNDS = {
    'quick': '4 schedules (stub, 1..8 periods, holidays) x {fixed, zero coupon x 2 compoundings} x exchange {NEITHER,START,END,BOTH} x 6-7 contracts (pay/receive, scalar/amortising notionals, '
             'scalar/stepped/negative/40% rates, payment delays up to 33 days (several coupons unsettled) and timing, 3 day counts); each valued on every critical value date (curve date, before/on/after every period boundary and '
             'payment date) x payments-on-value-date flag x accrued-limit flag, all outputs compared; all pay/receive pairs as swaps; discount curves ending around a payment without extrapolation',
    'thorough': '9 schedules, all 8 compoundings, 5 day counts, every critical date +-1 and +-1 year'}
ASSUMPTIONS = ['discount factors themselves are taken from the curve (decided by C13)', 'value date on or after the curve date',
               'fixings of floating legs are not implemented in the repository (fixing = NaN), floating legs are only checked for the missing-curve error',
               'accrued interest of in-advance coupons is unspecified']
CD = D(2024, 1, 10)
SCH = [(D(2024, 1, 15), D(2026, 1, 15), 'SEMIANNUAL'), (D(2023, 10, 20), D(2025, 2, 10), 'QUARTERLY'), (D(2024, 1, 31), D(2025, 1, 31), 'ANNUAL'),
       (D(2024, 2, 29), D(2027, 2, 28), 'ANNUAL'), (D(2024, 1, 12), D(2026, 8, 31), 'ZERO_COUPON'), (D(2024, 1, 31), D(2024, 5, 31), 'MONTHLY'),
       (D(2023, 8, 31), D(2024, 8, 30), 'QUARTERLY'), (D(2024, 3, 28), D(2028, 3, 28), 'SEMIANNUAL'), (D(2023, 12, 29), D(2024, 12, 31), 'SEMIANNUAL')]


def units(tier):
    ns = (0, 1, 3, 4) if tier == 'quick' else range(9)
    types = [('fixed', None), ('zc', 'ANNUAL'), ('zc', 'SIMPLE')]
    if tier != 'quick':
        types += [('zc', 'CONTINUOUS')] + [('zc', c) for c in ('DAILY', 'WEEKLY', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL')]
    return [dict(sched=i, type=t, comp=c, ex=ex, tier=tier) for i in ns for t, c in types for ex in ('NEITHER', 'START', 'END', 'BOTH')] + \
        ([dict(sched=5, type='fixed', comp=None, ex='BOTH', tier=tier)] if tier == 'quick' else [])


def close(a, b, scale=1e8):
    return abs(a - b) <= 1e-10 * scale


def set_env(vd, incl, limit):
    frm.utils.VALUE_DATE = pd.Timestamp(vd)
    frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = incl
    frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = limit


def nan_or_raises(fn):
    try:
        x = np.sum(np.atleast_1d(np.asarray(fn(), float)))
    except Exception:
        return True
    return not np.isfinite(x)


def short_curves(u, rec, base, variants):
    """a discount curve which ends before the last payment and does not extrapolate: the leg is valued in full or not at all"""
    set_env(CD, False, False)
    for v in [variants[1], variants[-1]]:
        spec = dict(base, **v)
        ref = RefLeg(spec)
        pays = [(d, a) for d, a in [*ref.coupons(), *ref.notional] if d and d > CD and a]
        dates = sorted({d for d, _ in pays})
        for cut in sorted({x for d in (dates if u['tier'] != 'quick' else dates[:1] + dates[-2:]) for x in (d, d - timedelta(1)) if x > CD}):
            k = (cut - CD).days
            zc = ZeroCurve(curve_date=pd.Timestamp(CD), pillar_df=pd.DataFrame({'days': [k], 'discount_factor': [float(np.exp(-0.04 * k / 365))]}), day_count_basis=DayCountBasis.ACT_365)
            case = dict(unit={k: u[k] for k in ('sched', 'type', 'comp', 'ex')}, short_curve=str(cut), **{k: (str(x) if k == 'init' else x) for k, x in v.items()})
            rec.state(repr(case))
            ok, leg = rec.call('raises', case, build_leg, spec, zc)
            if not ok:
                continue
            rec.trace()
            if dates[-1] <= cut:
                w = sum(a * float(np.exp(-0.04 * (d - CD).days / 365)) for d, a in pays)
                for fn in (leg.calc_dirty_pv, lambda: sum(leg.get_current_non_current_split())):
                    ok, g = rec.call('raises', case, fn)
                    rec.check(ok and close(g, w), 'dirty_pv', case, lambda: 'got %r want %r' % (g, w))
                continue
            rec.outcome('not valued')
            rec.check(nan_or_raises(leg.calc_dirty_pv), 'partial_value', case, lambda: 'payments up to %s have no discount factor, yet the leg is worth %r' % (dates[-1], leg.calc_dirty_pv()))
            rec.check(nan_or_raises(leg.get_current_non_current_split), 'partial_value', dict(case, split=True), lambda: 'payments up to %s have no discount factor, yet the split is %r' % (dates[-1], leg.get_current_non_current_split()))
            for tag, fn in (('par', leg.par_solve), ('target', lambda: leg.target_solve(1e6))):
                rec.check(nan_or_raises(fn), 'partial_solve', dict(case, tag=tag), lambda: 'a rate was solved although payments up to %s have no discount factor' % dates[-1])


def run_unit(u, rec):
    st, en, freq = SCH[u['sched']]
    thorough = u['tier'] != 'quick'
    zc, df = curve(CD)
    cal = CALS['hol']
    base = dict(start=st, end=en, freq=freq, conv='MODIFIED_FOLLOWING', cal=cal, ex=u['ex'], ndelay=0, cdelay=0, timing='IN_ARREARS', init=None,
                basis='ACT_365', type=u['type'], comp=u['comp'], rate=0.05, sign=1, notional=1e8)
    n = RefLeg(base).n
    amort = [1e8 * (1 - 0.75 * i / n) for i in range(n)]
    steps = [0.03 + 0.01 * i for i in range(n)]
    bases = ['ACT_365', '_30_360', 'ACT_360'] + (['ACT_ACT', '_30E_360'] if thorough else [])
    variants = []
    V = lambda notional, rate, sign, basis='ACT_365', cdelay=0, ndelay=0: variants.append(
        dict(notional=notional, rate=rate, sign=sign, basis=basis, cdelay=cdelay, ndelay=ndelay, timing='IN_ARREARS', init=None))
    for sign in (1, -1):
        V(1e8, 0.05, sign)
        V(amort, steps, sign)
    V(amort, -0.01, 1, 'ACT_360', 3, 0)
    V(1e8, steps, -1, '_30_360', 2, 2)
    if u['sched'] in (4, 5):
        V(1e8, 0.4, 1, 'ACT_365', 33, 1)        # several coupons unsettled at once, a high rate
    if thorough:
        for notional, rate, sign in itertools.product((1e8, amort), (0.05, steps), (1, -1)):
            V(notional, rate, sign, '_30_360')
        for sign, basis in itertools.product((1, -1), bases):
            for cdelay, ndelay in ((0, 0), (2, 2), (3, 0)):
                V(amort, -0.01 if basis == 'ACT_360' else 0.04, sign, basis, cdelay, ndelay)
    if u['type'] == 'fixed':
        for sign in ((1, -1) if thorough else (-1,)):
            variants.append(dict(notional=amort, rate=0.04, sign=sign, basis='ACT_365', cdelay=1, ndelay=0, timing='IN_ADVANCE', init=st + timedelta(4)))
    for iv, v in enumerate(variants):
        spec = dict(base, **v)
        ref = RefLeg(spec)
        crit = {CD, CD + timedelta(1), ref.b[0] - timedelta(1)}
        for d in (ref.b[:4] + ref.b[-3:] + [x for x, _ in ref.coupons()][:3] + [x for x, _ in ref.notional][-2:]) if thorough else ref.b[:2] + ref.b[-1:] + ref.cdate[:1] + ref.cdate[-1:]:
            crit |= {d, d + timedelta(1)} | ({d - timedelta(1), D(d.year - 1, d.month, min(d.day, 28))} if thorough else set())
        crit |= {ref.b[0] + (ref.b[1] - ref.b[0]) // 2, ref.b[-1] + timedelta(40)}
        y = ref.b[-1]
        crit.add(D(y.year - 1, y.month, min(y.day, 28)))
        crit = sorted(d for d in crit if d >= CD)
        name = dict(unit={k: u[k] for k in ('sched', 'type', 'comp', 'ex')}, **{k: (str(x) if k == 'init' else x) for k, x in v.items()})
        ok, leg = rec.call('raises', name, build_leg, spec, zc)
        if not ok:
            continue
        for vd in crit:
            for incl, limit in (((False, False), (True, False), (False, True)) if vd in ref.b or vd in ref.cdate or thorough else ((False, False),)):
                set_env(vd, incl, limit)
                case = dict(name, value_date=str(vd), incl=incl, limit=limit)
                rec.state(repr(case))
                # oracle
                pv = ref.pv(vd, incl, df)
                ok, got = rec.call('raises', case, leg.calc_dirty_pv)
                if not ok:
                    continue
                rec.trace()
                rec.check(close(got, pv), 'dirty_pv', case, lambda: 'got %r want %r' % (got, pv))
                d = leg.schedule.df
                cps = [float(x) for x in d['coupon_payment'][~d['period_start'].isna()]]
                want = [a for _, a in ref.coupons()]
                rec.check(len(cps) == len(want) and all(close(a, b) for a, b in zip(cps, want)), 'coupons', case, lambda: 'got %s want %s' % (cps, want))
                nps = [float(x) for x in d['notional_payment']]
                wn = [a for _, a in ref.notional]
                rec.check(len(nps) == len(wn) and all(close(a, b) for a, b in zip(nps, wn)), 'notionals', case, lambda: 'got %s want %s' % (nps, wn))
                ok, (cur, non) = rec.call('raises', case, leg.get_current_non_current_split)
                if ok:
                    wc, wnc = ref.split(vd, incl, df)
                    rec.check(close(cur, wc) and close(non, wnc), 'split', case, lambda: 'got %r want %r' % ((cur, non), (wc, wnc)))
                for ys in ((1, 2, 3, 5), (2,)):
                    ok, bk = rec.call('raises', case, leg.bucket_payments, calc_npv=len(ys) > 1, buckets=ys)
                    if ok:
                        wc, wn = ref.buckets(vd, incl, ys)
                        g = (list(bk['coupon_payment']), list(bk['notional_payment']), list(bk['total_payment']))
                        w = (wc, wn, [a + b for a, b in zip(wc, wn)])
                        rec.check(all(len(a) == len(b) and all(close(x, y) for x, y in zip(a, b)) for a, b in zip(g, w)), 'buckets', dict(case, buckets=list(ys)),
                                  lambda: 'got %s want %s' % (g, w))
                        rec.check(list(bk.index) == list(ys) + [float('inf')], 'bucket_index', case, lambda: str(list(bk.index)))
                if spec['timing'] == 'IN_ARREARS':
                    wa = ref.accrued(vd, incl, limit)
                    ok, ga = rec.call('raises', case, leg.calc_accrued_interest)
                    if ok:
                        rec.check(close(ga, wa), 'accrued', case, lambda: 'got %r want %r' % (ga, wa))
                        ok, gc = rec.call('raises', case, leg.calc_clean_pv)
                        if ok:
                            rec.check(close(gc, pv - wa), 'clean_pv', case, lambda: 'got %r want %r' % (gc, pv - wa))
                rec.outcome(round(pv, 2))
        rec.sample(case)
        # solves
        svd = [(d, False) for d in ((CD, ref.b[0], ref.b[0] + (ref.b[1] - ref.b[0]) // 2) if thorough else (CD, ref.b[0] + (ref.b[1] - ref.b[0]) // 2))]
        if thorough or iv in (0, len(variants) - 1):     # dates on which notional is exchanged
            nd = [d for d, a in ref.notional if a and d]
            svd += [(d, i) for d in (nd if thorough else nd[:2]) for i in (False, True)]
        for vd, incl in sorted(set(svd)):
            if vd < CD:
                continue
            set_env(vd, incl, False)
            case = dict(name, value_date=str(vd), incl=incl, solve=True)
            f = lambda r: ref.pv(vd, incl, df, r)
            pv_now = ref.pv(vd, incl, df)
            for tag, target, fn in (('par', ref.par_value(vd, incl), leg.par_solve), ('target', f(0.07), lambda: leg.target_solve(f(0.07))),
                                    ('target', f(-0.02), lambda: leg.target_solve(f(-0.02)))) + ((('target', f(2.0), lambda: leg.target_solve(f(2.0))),) if iv == 1 else ()):
                lo, hi = f(-0.1) - target, f(3) - target
                if abs(hi - lo) < 1 or lo * hi > 0:
                    continue        # no coupon left to solve for / no solution in the documented bracket
                ok, r = rec.call('raises', dict(case, tag=tag), fn)
                if not ok:
                    continue
                rec.trace()
                err = abs(f(float(r)) - target) if r == r else float('inf')
                rec.check(err < 1e-3 * max(1.0, abs(f(0.01) - f(0.0)) * 1e-4), tag + '_solve', dict(case, tag=tag, target=target), lambda: 'solved %r gives pv %r, target %r' % (r, f(float(r)), target))
                g2 = leg.calc_dirty_pv()
                rec.check(close(g2, pv_now), 'solve_changed_leg', dict(case, tag=tag), lambda: 'pv after solving %r, before %r' % (g2, pv_now))
                leg2 = build_leg(dict(spec, rate=float(r)), zc)
                g3 = leg2.calc_dirty_pv()
                rec.check(abs(g3 - target) < 1e-3 * max(1.0, abs(f(0.01) - f(0.0)) * 1e-4), 'resolved_leg', dict(case, tag=tag), lambda: 'leg at the solved rate has pv %r, target %r' % (g3, target))
    short_curves(u, rec, base, variants)
    # swaps: every pay/receive pairing of two variants of this unit
    picks = [variants[0], variants[2], variants[-1]] + ([variants[-2], variants[3]] if thorough else [])
    for a, b in itertools.product(picks, picks):
        sa, sb = dict(base, **a), dict(base, type='fixed', comp=None, **b)
        legs = build_leg(sa, zc), build_leg(sb, zc)
        case = dict(unit=dict(u), a={k: str(x) for k, x in a.items()}, b={k: str(x) for k, x in b.items()})
        rec.state(repr(case))
        if a['sign'] == b['sign']:
            rec.step()
            try:
                Swap(*legs)
                rec.fail('same_direction_accepted', case, 'both legs have the same direction')
            except AssertionError:
                pass
            continue
        ok, sw = rec.call('raises', case, Swap, *legs)
        if not ok:
            continue
        ra, rb = RefLeg(sa), RefLeg(sb)
        for vd in (CD, ra.b[0] + (ra.b[1] - ra.b[0]) // 3):
            if vd < CD:
                continue
            set_env(vd, False, False)
            pva, pvb = ra.pv(vd, False, df), rb.pv(vd, False, df)
            aa, ab = ra.accrued(vd, False, False), rb.accrued(vd, False, False)
            inarr = a['timing'] == b['timing'] == 'IN_ARREARS'
            rec.check(close(sw.calc_dirty_pv(), pva + pvb), 'swap_dirty', case, 'swap dirty PV is not the sum of its legs')
            if inarr:
                rec.check(close(sw.calc_accrued_interest(), aa + ab), 'swap_accrued', case, 'swap accrued is not the sum of its legs')
                rec.check(close(sw.calc_clean_pv(), pva + pvb - aa - ab), 'swap_clean', case, 'swap clean PV')
            rec.trace(3)
            for k in (0, 3, -1, None):
                rec.step()
                try:
                    sw.target_solve_swap(0.0, k)
                    rec.fail('leg_number', dict(case, leg=k), 'leg number accepted')
                except ValueError:
                    rec.outcome('leg number rejected')
            ok, pars = rec.call('raises', case, sw.par_solve_each_leg)
            for k, x in enumerate((ra, rb)):
                g, target = (lambda r: x.pv(vd, False, df, r)), x.par_value(vd, False)
                if ok and (g(-0.1) - target) * (g(3) - target) <= 0 and abs(g(-0.1) - g(3)) >= 1:
                    r = float(pars[k])
                    rec.check(r == r and abs(g(r) - target) < 1e-3 * max(1.0, abs(g(0.01) - g(0.0)) * 1e-4), 'par_solve_each_leg', dict(case, leg=k + 1, value_date=str(vd)), lambda: 'rate %r gives %r, par %r' % (r, g(r), target))
            for k, (x, other) in enumerate(((ra, pvb), (rb, pva)), 1):
                for target in (0.0, 1e6):
                    f = lambda r: x.pv(vd, False, df, r) + other - target
                    if f(-0.1) * f(3) > 0 or abs(f(-0.1) - f(3)) < 1:
                        continue
                    ok, r = rec.call('raises', case, sw.target_solve_swap, target, k)
                    if ok:
                        rec.check(r == r and abs(f(float(r))) < 1e-3 * max(1.0, abs(f(0.01) - f(0.0)) * 1e-4), 'target_solve_swap', dict(case, leg=k, target=target, value_date=str(vd)),
                                  lambda: 'rate %r leaves a residual of %r' % (r, f(float(r))))
    # a rate vector has one rate per period, anything else is rejected
    for k in sorted({0, n - 1, n + 1, n + 2} - {1, n}):
        rec.step()
        rec.state('rate shape', k)
        try:
            build_leg(dict(base, rate=[0.01] * k), zc)
            rec.fail('rate_shape', dict(unit=dict(u), periods=n, rates=k), 'a vector of %d rates was accepted for %d periods' % (k, n))
        except Exception:
            rec.outcome('shape rejected')
    # floating legs without a curve say so
    from frm.utils import MarketDataNotAvailableError
    for cls in (FloatTermLeg, FloatRFRLeg):
        rec.step()
        set_env(CD, False, False)
        try:
            cls(schedule=build_schedule(base), discount_curve=zc, spread=0.01).calc_dirty_pv()
            rec.fail('missing_curve', dict(cls=cls.__name__), 'valued without a forecast curve')
        except MarketDataNotAvailableError:
            pass
