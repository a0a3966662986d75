"""C17: swap curves join historical fixings and forward rates exactly at the curve date, for every period and vector of periods."""
import itertools, math
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import DayCountBasis, RFRFixingCalcMethod, TermRate, PeriodFreq, ZeroCurveInterpMethod
from mc.ref.curves import RefCurve, LIN, SPLN
from mc.ref.dates import ref_years
from mc.ref.fixings import History, HOL, DPY, bd, D

BOUNDS = {
    'quick': '3 curve dates (mid-week, Monday, just after holidays) x 2 day counts x 2 interpolation methods; every ordered date pair of a 14-date alphabet around the curve date x 3 RFR / 3 term methods; all vectors of 2 '
             '(and of 3, selected) periods mixing past, current and future periods',
    'thorough': 'all date pairs of a 26-date alphabet, all vectors of 3 of 10 periods'}
ASSUMPTIONS = ['simple averages of sub-periods without any business day are unspecified', 'the zero curve calendar and the fixing history have the same holidays']
CDS = [D(2024, 1, 10), D(2024, 1, 15), D(2023, 12, 28)]
RFR = [m for m in RFRFixingCalcMethod]
TERM = [m for m in TermRate]


def units(tier):
    return [dict(kind=k, cd=str(c), basis=b, interp=i, part=p, tier=tier) for c in CDS for b in DPY for i in (LIN, SPLN) for k in ('rfr', 'term') for p in range(3)]


def T(ds):
    return pd.DatetimeIndex([pd.Timestamp(x) for x in ds])


def run_unit(u, rec):
    cd, basis = date.fromisoformat(u['cd']), u['basis']
    hist = History(D(2023, 11, 1), cd - timedelta(1))
    pill = [cd + timedelta(o) for o in (17, 80, 200, 400)]
    dfs = [math.exp(-r * (d - cd).days / 365) for d, r in zip(pill, (0.03, 0.036, 0.033, 0.04))]
    ref = RefCurve(cd, pill, dfs, basis, u['interp'])
    z = ZeroCurve(curve_date=pd.Timestamp(cd), pillar_df=pd.DataFrame({'date': T(pill), 'discount_factor': dfs}), day_count_basis=DayCountBasis[basis],
                  cal=np.busdaycalendar(holidays=sorted(HOL)), interp_method=ZeroCurveInterpMethod[u['interp']])
    DF = {cd + timedelta(i): ref.df(cd + timedelta(i)) for i in range(401)}
    cls, fx = (RFRSwapCurve, RFRFixings) if u['kind'] == 'rfr' else (TermSwapCurve, TermFixings)
    src = hist.frame('rotated' if u['kind'] == 'rfr' else 'sorted')
    c = cls(zero_curve=z, historical_fixings=fx(fixings=src, day_count_basis=DayCountBasis[basis]))
    memo = {}

    def fwd(s, e, m):
        yf, g = ref_years(basis, s, e), DF[s] / DF[e]
        if m in ('SIMPLE', 'DAILY_COMPOUNDED'):
            return (g - 1) / yf
        if m == 'CONTINUOUS':
            return math.log(g) / yf
        if m == 'ANNUAL':
            return g ** (1 / yf) - 1
        days = [s + timedelta(i) for i in range((e - s).days)]
        if m == 'SIMPLE_AVERAGE':
            days = [d for d in days if bd(d)]
        return sum((DF[d] / DF[d + timedelta(1)] - 1) * DPY[basis] for d in days) / len(days) if days else None

    def want(s, e, m):
        if (s, e, m) in memo:
            return memo[s, e, m]
        if u['kind'] == 'term':
            w = hist.on(s) if s < cd else fwd(s, e, m)
        elif s >= cd:
            w = fwd(s, e, m)
        elif e <= cd:
            w = hist.rate(s, e, m, basis)
        else:
            h, f = hist.rate(s, cd, m, basis), fwd(cd, e, m)
            th, tf = ref_years(basis, s, cd), ref_years(basis, cd, e)
            if h is None or f is None:
                w = None
            elif m == 'WEIGHTED_AVERAGE':
                w = (h * th + f * tf) / (th + tf)
            elif m == 'SIMPLE_AVERAGE':
                nh = sum(bd(s + timedelta(i)) for i in range((cd - s).days))
                nf = sum(bd(cd + timedelta(i)) for i in range((e - cd).days))
                w = (h * nh + f * nf) / (nh + nf)
            else:
                w = ((1 + h * th) * (1 + f * tf) - 1) / (th + tf)
        memo[s, e, m] = w
        return w

    def ask(ps, m):
        kw = dict(cpn_calc_method=m)
        if u['kind'] == 'term':
            kw['fixing_freq'] = PeriodFreq.QUARTERLY
        return c.get_fixings(T([a for a, _ in ps]), T([b for _, b in ps]), **kw)

    off = [-40, -30, -16, -13, -7, -3, -1, 0, 1, 2, 4, 11, 45, 160]
    if u['tier'] != 'quick':
        off += [-25, -20, -10, -5, -2, 3, 6, 9, 15, 22, 90, 300]
    A = sorted(cd + timedelta(o) for o in off)
    base = dict(kind=u['kind'], cd=u['cd'], basis=basis, interp=u['interp'])
    methods = RFR if u['kind'] == 'rfr' else TERM
    jobs = [[(s, e)] for s in A for e in A if s < e]
    P = [(A[0], A[3]), (A[4], A[7]), (A[5], A[9]), (A[2], A[12]), (A[7], A[11]), (A[8], A[12]), (A[11], A[13]), (A[6], A[7]), (A[6], A[8]), (A[10], A[13])]
    jobs += [list(p) for p in itertools.product(P, P)]
    jobs += [list(p) for p in (itertools.product(P[::3], P[::2], P[1::3]) if u['tier'] == 'quick' else itertools.product(P, P, P))]
    for i, (ps, m) in enumerate(itertools.product(jobs, methods)):
        if i // 3 % 3 != u['part']:
            continue
        w = [want(s, e, m.name) for s, e in ps]
        if None in w:
            continue
        case = dict(base, periods=[[str(a), str(b)] for a, b in ps], method=m.name)
        rec.state(repr(case))
        ok, g = rec.call('raises', case, ask, ps, m)
        if ok:
            rec.trace()
            g = np.asarray(g, float)
            rec.check(g.shape == (len(w),) and np.allclose(g, w, rtol=1e-8, atol=1e-10), 'fixings', case, lambda: 'got %s want %s' % (g, w))
            rec.outcome(tuple(round(x, 7) for x in w))
    rec.sample(case)
    if u['kind'] == 'rfr':
        ok, g = rec.call('raises', base, c.get_discount_factors, T(A[7:]))
        rec.check(ok and np.allclose(g, [DF[d] for d in A[7:]], rtol=1e-11), 'discount_factors', base, lambda: str(g))
    rec.step()
    try:
        cls(zero_curve=z, historical_fixings=fx(fixings=src, day_count_basis=DayCountBasis._30_360))
        rec.fail('day_count_mismatch', base, 'curve and fixings with different day counts accepted')
    except AssertionError:
        pass
