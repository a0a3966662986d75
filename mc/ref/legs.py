"""Reference leg valuation in plain Python, given the period boundaries, notionals and a discount function."""
from datetime import date
from mc.ref.sched import schedule, bd_offset, add_months, Cal
from mc.ref.dates import ref_years


def zc_multiplier(freq, rate, t):
    import math
    if freq == 'SIMPLE':
        return rate * t
    if freq == 'CONTINUOUS':
        return math.exp(rate * t) - 1
    m = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}[freq]
    return (1 + rate / m) ** (m * t) - 1


class RefLeg:
    """spec: dict(start,end,freq,conv,cal,ex,notional(list or float),ndelay,cdelay,timing,init,basis,type,rate(list or float),comp,sign)"""

    def __init__(self, spec):
        self.s = spec
        cal = spec['cal']
        b = schedule(spec['start'], spec['end'], spec['freq'], spec['conv'], cal=cal)
        n = len(b) - 1
        N = spec['notional']
        N = [N] * n if not isinstance(N, (list, tuple)) else list(N)
        assert len(N) == n, (len(N), n)
        self.b, self.N, self.n = b, N, n
        sg = spec['sign']
        off = lambda d, k: bd_offset(d, k, spec['conv'], cal)
        self.notional = []     # (date, amount)
        if spec['ex'] in ('START', 'BOTH'):
            self.notional.append((spec['init'] or spec['start'], -N[0] * sg))
        for i in range(n):
            a = N[i] - N[i + 1] if i + 1 < n else (N[i] if spec['ex'] in ('END', 'BOTH') else 0.0)
            self.notional.append((off(b[i + 1], spec['ndelay']), a * sg))
        self.yf = [ref_years(spec['basis'], b[i], b[i + 1], i == n - 1) for i in range(n)]
        self.cdate = [off(b[i + 1] if spec['timing'] == 'IN_ARREARS' else b[i], spec['cdelay']) for i in range(n)]

    def rates(self, override=None):
        r = self.s['rate'] if override is None else override
        return list(r) if isinstance(r, (list, tuple)) else [r] * self.n

    def accrual(self, i, t, r):
        N = self.N[i] * self.s['sign']
        return N * (r * t if self.s['type'] == 'fixed' else zc_multiplier(self.s['comp'], r, t))

    def coupons(self, override=None):
        r = self.rates(override)
        return [(self.cdate[i], self.accrual(i, self.yf[i], r[i])) for i in range(self.n)]

    def payments(self, override=None):
        return self.notional + self.coupons(override)

    @staticmethod
    def due(d, vd, incl):
        return d >= vd if incl else d > vd

    def pv(self, vd, incl, df, override=None):
        return sum(a * df(d) for d, a in self.payments(override) if self.due(d, vd, incl))

    def par_value(self, vd, incl):
        return sum(a for d, a in self.notional if self.due(d, vd, incl))

    def accrued(self, vd, incl, limit):
        cps = self.coupons()
        uns = sum(a for i, (d, a) in enumerate(cps) if self.due(d, vd, incl) and self.b[i + 1] <= vd)
        acc = 0.0
        for i in range(self.n):
            if self.b[i] <= vd < self.b[i + 1]:
                acc += self.accrual(i, ref_years(self.s['basis'], self.b[i], vd, True) if vd > self.b[i] else 0.0, self.rates()[i])
        if limit:
            return uns if uns != 0 else acc
        return acc + uns

    def split(self, vd, incl, df):
        cut = add_months(vd, 12)
        cur = sum(a * df(d) for d, a in self.payments() if self.due(d, vd, incl) and (d <= cut if incl else d < cut))
        return cur, self.pv(vd, incl, df) - cur

    def buckets(self, vd, incl, ys):
        edges = [add_months(vd, 12 * y) for y in ys]
        out = []
        for kind in (self.coupons(), self.notional):
            col = []
            for j in range(len(ys) + 1):
                tot = 0.0
                for d, a in kind:
                    if not self.due(d, vd, incl):
                        continue
                    k = next((m for m, e in enumerate(edges) if d < e), len(edges))
                    tot += a if k == j else 0.0
                col.append(tot)
            out.append(col)
        return out


# --- building the real objects -------------------------------------------------------------------------------------------
_cache = {}


def curve(curve_date, basis='ACT_365'):
    import pandas as pd
    from frm.term_structures.zero_curve import ZeroCurve
    from frm.enums import DayCountBasis
    key = (curve_date, basis)
    if key not in _cache:
        n = [30, 91, 182, 365, 730, 1096, 1461, 2557]
        r = [0.031, 0.033, 0.034, 0.036, 0.039, 0.041, 0.042, 0.045]
        import math
        df = pd.DataFrame({'date': [pd.Timestamp(curve_date) + pd.Timedelta(days=k) for k in n], 'discount_factor': [math.exp(-a * k / 365) for a, k in zip(r, n)]})
        z = ZeroCurve(curve_date=pd.Timestamp(curve_date), pillar_df=df, day_count_basis=DayCountBasis[basis])
        memo = {}

        def dfn(d):
            if d not in memo:
                memo[d] = float(z.get_discount_factors(pd.Timestamp(d)))
            return memo[d]
        _cache[key] = (z, dfn)
    return _cache[key]


def build_schedule(spec):
    import numpy as np, pandas as pd
    from frm.utils.schedule import CouponSchedule
    from frm.enums.utils import PeriodFreq, RollConv, TimingConvention, ExchangeNotionals
    N = spec['notional']
    kw = {}
    if spec['init']:
        kw['initial_notional_exchange_date'] = pd.Timestamp(spec['init'])
    return CouponSchedule(spec['start'], spec['end'], PeriodFreq[spec['freq']], roll_conv=RollConv[spec['conv']], cal=spec['cal'].np(),
                          notional_amount=np.array(N, float) if isinstance(N, (list, tuple)) else N, exchange_notionals=ExchangeNotionals[spec['ex']],
                          notional_payment_delay=spec['ndelay'], coupon_payment_delay=spec['cdelay'], coupon_payment_timing=TimingConvention[spec['timing']], **kw)


def build_leg(spec, zc, sched=None, **over):
    import numpy as np
    from frm.instruments.leg import FixedLeg, ZerocouponLeg
    from frm.enums import PayRcv, DayCountBasis, CompoundingFreq
    sched = build_schedule(spec) if sched is None else sched
    r = spec['rate']
    r = np.array(r, float) if isinstance(r, (list, tuple)) else r
    kw = dict(schedule=sched, discount_curve=zc, pay_rcv=PayRcv.RCV if spec['sign'] > 0 else PayRcv.PAY, day_count_basis=DayCountBasis[spec['basis']])
    kw.update(over)
    if spec['type'] == 'fixed':
        return FixedLeg(fixed_rate=r, **kw)
    return ZerocouponLeg(zero_rate=r, compounding_freq=CompoundingFreq[spec['comp']], **kw)
