"""C08: leg and swap queries are pure: any history of queries, value date / setting changes and sharing gives the answers of a fresh object."""
import itertools
from datetime import date, timedelta
import numpy as np, pandas as pd
import frm.utils
from frm.instruments.swap import Swap
from mc.ref.legs import RefLeg, curve, build_leg, build_schedule
from mc.checks.c03 import CALS

D = date
CD = D(2024, 1, 10)
BOUNDS = {
    'quick': 'one object revalued under each of 10 configurations and then each of 8 changes back or onwards (value date, settings, discount curve), pairs of queries; '
             'every sequence of length <= 3 over 13 leg actions (5 queries, par/target solve, coupon-overridden PV, 3 value dates, 2 settings toggles) and of length <= 3 over 9 swap actions, on 4 leg '
             'contracts x 3 swaps, incl. two legs built from one schedule object; every query answer compared with the same query on a fresh object under the same settings; '
             'contract terms (rates, notionals, dates) compared after every sequence',
    'thorough': 'as quick, with a third configuration; sequences of length <= 4, 6 leg contracts'}
ASSUMPTIONS = ['calc_npv=False means "use the stored cashflows of the last calc_dirty_pv" and is only used right after one']
SPECS = [dict(type='fixed', comp=None, ex='BOTH', notional='amort', rate='steps', sign=1), dict(type='fixed', comp=None, ex='NEITHER', notional=1e8, rate=0.05, sign=-1),
         dict(type='fixed', comp=None, ex='END', notional=1e8, rate=0.03, sign=-1, cdelay=2), dict(type='zc', comp='ANNUAL', ex='BOTH', notional=1e8, rate=0.04, sign=1),
         dict(type='zc', comp='CONTINUOUS', ex='NEITHER', notional='amort', rate=0.02, sign=-1), dict(type='fixed', comp=None, ex='START', notional=5e7, rate=0.06, sign=1)]
E0 = (0, False, False, 0)
VDS = [D(2024, 1, 10), D(2024, 9, 2), D(2025, 1, 15)]
QUERIES = ['dirty', 'clean', 'accrued', 'split', 'buckets']
ACTIONS = QUERIES + ['par', 'target', 'override', 'vd0', 'vd1', 'vd2', 'incl', 'limit']
SWAP_ACTIONS = ['dirty', 'clean', 'accrued', 'pars', 'target1', 'target2', 'vd0', 'vd1', 'leg1']


def full(spec):
    s = dict(start=D(2024, 1, 15), end=D(2026, 1, 15), freq='SEMIANNUAL', conv='MODIFIED_FOLLOWING', cal=CALS['monfri'], ndelay=0, cdelay=0, timing='IN_ARREARS', init=None, basis='ACT_365')
    s.update(spec)
    n = 4
    if s['notional'] == 'amort':
        s['notional'] = [1e8, 8e7, 5e7, 3e7]
    if s['rate'] == 'steps':
        s['rate'] = [0.03, 0.035, 0.04, 0.05]
    return s


def units(tier):
    out = [dict(kind='leg', spec=i, first=a, tier=tier, shared=False) for i in ((0, 2, 3, 4) if tier == 'quick' else range(len(SPECS))) for a in ACTIONS]
    out += [dict(kind='leg', spec=i, first=a, tier=tier, shared=True) for i in (0, 3) for a in ('dirty', 'par', 'accrued')]
    out += [dict(kind='leg', revisit=True, spec=i, first=a, tier=tier, shared=False) for i in ((0, 3) if tier == 'quick' else range(len(SPECS))) for a in (('dirty', 'clean', 'accrued', 'buckets') if tier == 'quick' else QUERIES + ['par'])]
    out += [dict(kind='swap', revisit=True, legs=p, first=a, tier=tier, shared=False) for p in ((0, 1), (3, 4)) for a in ('dirty', 'accrued')]
    out += [dict(kind='swap', legs=p, first=a, tier=tier, shared=sh) for p, sh in (((0, 1), False), ((3, 4), False), ((0, 4), True)) for a in SWAP_ACTIONS]
    return out


def canon(x):
    if isinstance(x, pd.DataFrame):
        return [float(v) for v in x.to_numpy(dtype=float).ravel()]
    if isinstance(x, tuple):
        return [float(v) for v in x]
    return [float(x)]


def same(a, b):
    return len(a) == len(b) and all((x != x and y != y) or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def apply_env(env):
    frm.utils.VALUE_DATE = pd.Timestamp(VDS[env[0]])
    frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = env[1]
    frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = env[2]


def leg_query(leg, a):
    if a == 'dirty':
        return canon(leg.calc_dirty_pv())
    if a == 'clean':
        return canon(leg.calc_clean_pv())
    if a == 'accrued':
        return canon(leg.calc_accrued_interest())
    if a == 'split':
        return canon(leg.get_current_non_current_split())
    if a == 'buckets':
        return canon(leg.bucket_payments())
    if a == 'par':
        return canon(leg.par_solve())
    if a == 'target':
        return canon(leg.target_solve(2.5e6 * leg.pay_rcv.multiplier))
    if a == 'override':
        return canon(leg.calc_dirty_pv(coupon_override=0.11))
    raise KeyError(a)


def swap_query(sw, a):
    if a == 'dirty':
        return canon(sw.calc_dirty_pv())
    if a == 'clean':
        return canon(sw.calc_clean_pv())
    if a == 'accrued':
        return canon(sw.calc_accrued_interest())
    if a == 'pars':
        return canon(sw.par_solve_each_leg())
    if a == 'target1':
        return canon(sw.target_solve_swap(1e5, 1))
    if a == 'target2':
        return canon(sw.target_solve_swap(1e5, 2))
    if a == 'leg1':
        return canon(sw.leg1.calc_dirty_pv())
    raise KeyError(a)


def terms(leg):
    d = leg.schedule.df
    col = 'fixed_rate' if 'fixed_rate' in d.columns else 'zero_rate'
    return [canon(d[[c]]) for c in ('notional', 'notional_payment', col, 'period_yearfrac')] + \
           [[str(x) for x in d[c]] for c in ('period_start', 'period_end', 'coupon_payment_date', 'notional_payment_date')]


def run_unit(u, rec):
    depth = 3 if u['tier'] == 'quick' else 4
    zc, _ = curve(CD)
    zcs = (zc, zc.flat_shift(75))
    fresh_memo = {}
    if u['kind'] == 'leg':
        spec = full(SPECS[u['spec']])
        acts = ACTIONS
        query = leg_query

        def make():
            if not u['shared']:
                return build_leg(spec, zc), None
            sched = build_schedule(spec)
            other = build_leg(dict(spec, sign=-spec['sign'], rate=0.09, basis='ACT_360'), zc, sched=sched)
            leg = build_leg(spec, zc, sched=sched)
            other.calc_dirty_pv()
            build_leg(dict(spec, rate=0.01, basis='_30_360'), zc, sched=sched)
            return leg, sched
        fresh = lambda e=E0: build_leg(spec, zcs[e[3]])
        get_terms = terms
    else:
        s1, s2 = full(SPECS[u['legs'][0]]), full(SPECS[u['legs'][1]])
        acts = SWAP_ACTIONS
        query = swap_query

        def make():
            if not u['shared']:
                return Swap(build_leg(s1, zc), build_leg(s2, zc)), None
            sched = build_schedule(s1)
            return Swap(build_leg(s1, zc, sched=sched), build_leg(dict(s1, type='zc', comp='CONTINUOUS', rate=0.02, sign=-s1['sign']), zc, sched=sched)), sched
        fresh = lambda e=E0: Swap(build_leg(s1, zcs[e[3]]), build_leg(s2 if not u['shared'] else dict(s1, type='zc', comp='CONTINUOUS', rate=0.02, sign=-s1['sign']), zcs[e[3]]))
        get_terms = lambda sw: terms(sw.leg1) + terms(sw.leg2)

    def expected(env, a):
        if (env, a) not in fresh_memo:
            apply_env(env)
            fresh_memo[env, a] = query(fresh(env), a)
            rec.step()
        return fresh_memo[env, a]

    t0 = get_terms(fresh())
    spec_frame = None

    def step(env, a):
        if a.startswith('vd'):
            return (int(a[2:]),) + env[1:]
        if a == 'incl':
            return (env[0], not env[1], env[2], env[3])
        if a == 'limit':
            return (env[0], env[1], not env[2], env[3])
        if a == 'curve':
            return env[:3] + (1 - env[3],)
        return None

    ALL = [a for a in acts if step(E0, a) is None]

    def run_path(path):
        obj, sched = make()
        s0 = sched.df.copy() if sched is not None else None
        env = E0
        case = dict(unit={k: u.get(k) for k in ('kind', 'shared', 'revisit')}, spec=u.get('spec', u.get('legs')), path=list(path))
        for i, a in enumerate(path):
            e2 = step(env, a)
            rec.step()
            if e2 is not None:
                env = e2
                continue
            want = expected(env, a)
            apply_env(env)
            for leg in ((obj,) if u['kind'] == 'leg' else (obj.leg1, obj.leg2)):
                leg.discount_curve = zcs[env[3]]
            try:
                got = query(obj, a)
            except Exception as e:
                rec.fail('raises', case, '%s raised %r' % (a, e))
                return
            if not same(got, want):
                rec.fail('history', case, '%s at step %d: %s, on a fresh object %s (value date %s)' % (a, i, got, want, VDS[env[0]]))
        rec.state(u['kind'], u.get('spec', u.get('legs')), u['shared'], path)
        rec.trace()
        rec.check(repr(get_terms(obj)) == repr(t0), 'terms_changed', case, 'contract terms changed by queries')
        if s0 is not None:
            rec.check(sched.df.equals(s0), 'shared_schedule_changed', case, "the caller's schedule was modified")
        rec.outcome(path[-1], env)

    if u.get('revisit'):
        # one object revalued: a query under one configuration, then under another (and, for the thorough tier, a third)
        moves = [(), ('vd1',), ('vd2',), ('incl',), ('limit',), ('curve',), ('vd1', 'incl'), ('vd2', 'incl'), ('vd1', 'curve'), ('vd2', 'limit')]
        backs = [('vd0',), ('vd1',), ('vd2',), ('incl',), ('curve',), ('vd0', 'incl'), ('vd0', 'curve'), ('vd0', 'limit')]
        qs = [a for a in ALL if a in (('dirty', 'accrued', 'buckets') if u['tier'] == 'quick' else ('dirty', 'clean', 'accrued', 'split', 'buckets', 'par', 'pars', 'leg1'))]
        for m1 in moves:
            for m2 in backs:
                for q in qs:
                    run_path(m1 + (u['first'],) + m2 + (q,))
                    if u['tier'] != 'quick':
                        for m3 in backs:
                            run_path(m1 + (u['first'],) + m2 + (q,) + m3 + (u['first'],))
        rec.sample(dict(path=list(m1)))
        return

    # all maximal sequences (every shorter sequence is one of their prefixes, checked step by step); the last action is a query
    for tail in itertools.product(acts, repeat=depth - 1):
        path = (u['first'],) + tail
        if step(E0, path[-1]) is not None:
            continue
        if u['tier'] == 'quick' and u['kind'] == 'leg' and path[-1] in ('par', 'target') and path[0] in QUERIES and u['spec'] not in (0, 3):
            continue
        run_path(path)
    rec.sample(dict(path=list(path)))
