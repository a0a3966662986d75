"""C29: the FX volatility surface reprices its quotes, interpolates total variance between expiries, and gives the same answers however its inputs are presented and whatever was asked before."""
import itertools, math, warnings
from datetime import date, timedelta
import numpy as np, pandas as pd
from scipy.interpolate import CubicSpline
from frm.enums import DayCountBasis, CompoundingFreq, FXSmileInterpolationMethod as M
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
from frm.pricing_engine.heston import heston_simulate
from mc.ref.dates import ref_years
from mc.ref.sched import Cal, follow, bd_offset, add_months
from mc.ref.options import N
from mc.checks.c22 import delta_of

BOUNDS = {
    'quick': '6 currency pairs x 3 curve dates x {3, 5, 9 quotes} x spline methods x {strategy, call/put} quotes x 3 patterns of delta conventions: every pillar and quote, call and put; every calendar day between the first and '
             'last pillar; 48 representations of the same market data; every sequence of up to 3 of 6 queries; every subset of 5 delivery dates for Monte Carlo; Heston smiles at 3 pillars and Heston paths for every subset of 3 delivery dates; 11 invalid requests',
    'thorough': '6 curve dates, sequences of 4 queries, every subset of 7 delivery dates, 5 Heston methods'}
ASSUMPTIONS = ['zero curves are right (C12-C15)', 'a day between two pillars takes the delta convention of the later one (documented simplification)', 'expiries outside the quoted range are rejected', 'prices discount at the domestic rate implied by the market forward (documented)']
TEN = ['1w', '1m', '3m', '1y', '2y']
PAIRS = {'audusd': (0.66, .05, .04, 2), 'usdjpy': (145.0, .001, .05, 2), 'usdcad': (1.35, .045, .05, 1), 'eurgbp': (0.85, .05, .03, 2), 'usdidr': (15500.0, .065, .05, 2), 'jpyusd': (0.0069, .05, -.001, 2)}
CONVS = {'mixed': ['regular_spot'] * 4 + ['regular_forward'], 'pa': ['premium_adjusted_spot'] * 3 + ['premium_adjusted_forward'] * 2, 'fwd': ['regular_forward'] * 5}
DELTAS = {3: (25,), 5: (25, 10), 9: (5, 10, 25, 40)}
HOL = [date(2023, 12, 25), date(2023, 12, 26), date(2024, 1, 1), date(2024, 3, 29), date(2024, 4, 1), date(2023, 7, 4)]
STARTS = ['2023-06-30', '2023-11-24', '2024-02-29', '2023-12-22', '2024-07-06', '2024-01-31']
ts = pd.Timestamp


def units(tier):
    q = tier == 'quick'
    S = STARTS[:3] if q else STARTS
    u = [dict(kind='pillar', pair=p, start=s, nq=n, tier=tier) for p in PAIRS for s in S for n in (3, 5, 9)]
    u += [dict(kind='daily', pair=p, start=s, conv=c, tier=tier) for p, c in zip(PAIRS, ['mixed', 'pa', 'fwd'] * 2) for s in S]
    u += [dict(kind='represent', pair=p, start=s, tier=tier) for p in ('audusd', 'usdcad') for s in S]
    u += [dict(kind='history', first=i, tier=tier, method=m) for i in range(6) for m in ('UNIVARIATE_SPLINE', 'CUBIC_SPLINE')]
    u += [dict(kind='mc', pair=p, start=s, tier=tier) for p in ('audusd', 'usdjpy', 'usdcad') for s in S]
    u += [dict(kind='heston_mc', pair=p, tier=tier) for p in ('audusd', 'usdcad')]
    return u + [dict(kind='heston', pair=p, method=m) for p in ('audusd', 'usdjpy') for m in (['HESTON_COSINE'] if q else ['HESTON_COSINE', 'HESTON_1993', 'HESTON_LIPTON', 'HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE'])] + [dict(kind='reject')]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


class Market:
    """the reference: pillars, forwards, quotes and their interpolation in plain floats"""
    def __init__(self, pair, start, nq=5, conv='mixed', basis='ACT_ACT'):
        self.pair, self.start, self.basis = pair, date.fromisoformat(start), basis
        self.S, rd, rf, self.off = PAIRS[pair]
        self.cal = Cal('1111100', HOL)
        self.conv = CONVS[conv]
        self.exp = [self.roll(t) for t in TEN]
        self.spot_date = bd_offset(self.start, self.off, 'FOLLOWING', self.cal)
        self.fpil = [(self.roll(t), x) for t, x in zip(['SP', '1w', '2m', '6m', '1y', '18m', '2y'], [self.S * m for m in (1, 1.0004, 1.002, 0.998, 0.99, 0.995, 1.003)])]
        self.ften = ['SP', '1w', '2m', '6m', '1y', '18m', '2y']
        D = DELTAS[nq]
        atm = [.108, .098, .0967, .0992, .1015]
        rr = [-.0054, -.0071, -.0099, .0032, .0144]
        bf = [.001, .0009, .0017, .0031, .0038]
        self.names = ['%d_delta_put' % d for d in sorted(D)] + ['atm_delta_neutral'] + ['%d_delta_call' % d for d in sorted(D, reverse=True)]
        self.strat, self.q = {'atm_delta_neutral': atm}, {'atm_delta_neutral': atm}
        for d in D:
            k = (50 - d) / 25
            self.strat['%d_delta_risk_reversal' % d] = [x * k for x in rr]
            self.strat['%d_delta_butterfly' % d] = [x * k * k for x in bf]
            self.q['%d_delta_call' % d] = [a + x * k / 2 + y * k * k for a, x, y in zip(atm, rr, bf)]
            self.q['%d_delta_put' % d] = [a - x * k / 2 + y * k * k for a, x, y in zip(atm, rr, bf)]
        self.delta = [(1 if 'call' in n else -1) * int(n.split('_')[0]) / 100 if n[0] != 'a' else 0.5 for n in self.names]
        self.dom, self.frn = self.zc(rd), self.zc(rf)

    def roll(self, t):
        t = t.lower()
        d = self.start if t == 'sp' else self.start + timedelta(7 * int(t[:-1])) if t[-1] == 'w' else add_months(self.start, int(t[:-1]) * (12 if t[-1] == 'y' else 1))
        return follow(d, self.cal)

    def zc(self, r):
        df = pd.DataFrame({'tenor': ['1d', '6m', '2y', '5y'], 'zero_rate': [r, r + .002, r - .003, r]})
        return ZeroCurve(pillar_df=df, curve_date=ts(self.start), day_count_basis=DayCountBasis.ACT_365, compounding_freq=CompoundingFreq.CONTINUOUS, cal=self.cal.np())

    def quotes(self, strategy=True, names=lambda n: n, conv=True):
        d = {'tenor': TEN, 'delta_convention': self.conv}
        d.update({names(k): v for k, v in (self.strat if strategy else self.q).items()})
        return pd.DataFrame(d)

    def forwards(self):
        return pd.DataFrame({'tenor': self.ften, 'fx_forward_rate': [x for _, x in self.fpil]})

    def surface(self, method='UNIVARIATE_SPLINE', vq=None, fc=None, **kw):
        kw = kw or dict(curve_date=ts(self.start))
        kw.setdefault('cal', self.cal.np())
        return FXVolatilitySurface(domestic_ccy=self.pair[3:], foreign_ccy=self.pair[:3], fx_forward_curve_df=self.forwards() if fc is None else fc, domestic_zero_curve=self.dom, foreign_zero_curve=self.frn,
                                   vol_quotes=self.quotes() if vq is None else vq, smile_interpolation_method=M[method], day_count_basis=DayCountBasis[self.basis], **kw)

    def years(self, d):
        return ref_years(self.basis, self.start, d)

    def forward(self, d):
        p = self.fpil
        if d <= p[0][0]:
            return p[0][1]
        for (a, x), (b, y) in zip(p, p[1:]):
            if a <= d <= b:
                return x + (y - x) * (d - a).days / (b - a).days
        return p[-1][1]

    def vols(self, d):
        for i, e in enumerate(self.exp):
            if e == d:
                return [self.q[n][i] for n in self.names], self.conv[i]
        i = max(k for k, e in enumerate(self.exp) if e < d)
        t1, t2, t = self.years(self.exp[i]), self.years(self.exp[i + 1]), self.years(d)
        out = []
        for n in self.names:
            a, b = self.q[n][i] ** 2 * t1, self.q[n][i + 1] ** 2 * t2
            out.append(math.sqrt((a + (b - a) * (t - t1) / (t2 - t1)) / t))
        return out, self.conv[i + 1]

    def rates(self, d):
        return [float(np.ravel(z.get_zero_rates(dates=pd.DatetimeIndex([ts(d)]), compounding_freq=CompoundingFreq.CONTINUOUS))[0]) for z in (self.dom, self.frn)]


def spline(x, y, at):
    if len(x) == 3:
        return sum(y[i] * (at - x[j]) * (at - x[k]) / (x[i] - x[j]) / (x[i] - x[k]) for i, j, k in ((0, 1, 2), (1, 0, 2), (2, 0, 1)))
    return CubicSpline(x, y)(at)


def price(cp, F, K, s, df):
    d = math.log(F / K) / s + s / 2
    return df * cp * (F * N(cp * d) - K * N(cp * (d - s)))


def do_pillar(u, rec):
    for conv, strat in itertools.product(CONVS, (True, False)):
        m = Market(u['pair'], u['start'], u['nq'], conv, 'ACT_ACT' if conv == 'mixed' else 'ACT_365')
        for method in ['UNIVARIATE_SPLINE'] + (['CUBIC_SPLINE'] if u['nq'] > 3 else []):
            case0 = dict(pair=u['pair'], start=u['start'], quotes=u['nq'], conv=conv, strategy=strat, method=method)
            ok, s = rec.call('raises', case0, m.surface, method, m.quotes(strat))
            if not ok:
                continue
            p = s.vol_smile_pillar_df
            rec.check(s.fx_spot_rate == m.S and s.spot_offset == m.off and s.spot_date == ts(m.spot_date), 'spot', case0, lambda: repr((s.fx_spot_rate, s.spot_offset, s.spot_date)))
            if not rec.check([x.date() for x in p['expiry_date']] == m.exp and list(s.quotes_column_names) == m.names and np.allclose(s.quotes_signed_delta, m.delta, rtol=0, atol=0)
                             and [x.date() for x in p['delivery_date']] == [bd_offset(e, m.off, 'FOLLOWING', m.cal) for e in m.exp], 'pillars', case0, lambda: '%r want %r' % (p.to_dict('list'), m.exp)):
                continue
            if not rec.check(np.allclose(p[m.names].astype(float).values, np.array([m.q[n] for n in m.names]).T, rtol=0, atol=1e-12), 'quotes', case0, lambda: repr(p[m.names])):
                continue
            for i, e in enumerate(m.exp):
                K = s.strike_pillar_df[m.names].iloc[i].to_numpy(float)
                t, F, (rd, rf) = m.years(e), m.forward(e), m.rates(e)
                res = {}
                # between the quotes: the parabola through three, the not-a-knot cubic through more
                v0 = np.array([m.q[n][i] for n in m.names])
                mid = np.concatenate([K[:-1] * (1 - f) + K[1:] * f for f in ((.5,) if u['tier'] == 'quick' else (.1, .25, .5, .75, .9))])
                ok, r = rec.call('raises_between', dict(case0, expiry=e), s.price_vanilla_european, pd.DatetimeIndex([ts(e)] * len(mid)), mid, np.ones(len(mid)))
                if ok:
                    got, want = r['market_data_inputs']['vol'].to_numpy(float), spline(K, v0, mid)
                    rec.check(np.allclose(got, want, rtol=0, atol=1e-8), 'between', dict(case0, expiry=e), lambda: 'between the quotes %s want %s' % (got, want))
                for cp in (1, -1):
                    case = dict(case0, expiry=e, cp=cp)
                    rec.state(repr(case))
                    ok, res[cp] = rec.call('raises_price', case, s.price_vanilla_european, pd.DatetimeIndex([ts(e)] * len(K)), K, np.full(len(K), cp))
                if len(res) < 2:
                    continue
                rec.trace(2 * len(K))
                for j, n in enumerate(m.names):
                    v = m.q[n][i]
                    case = dict(case0, expiry=e, quote=n)
                    rec.outcome(round(K[j] / m.S, 9))
                    if n[0] == 'a':
                        d = abs(delta_of(K[j], F, t, rf, v, 1, conv_of(m.conv[i])) + delta_of(K[j], F, t, rf, v, -1, conv_of(m.conv[i])))
                    else:
                        d = abs(delta_of(K[j], F, t, rf, v, 1 if m.delta[j] > 0 else -1, m.conv[i]) - m.delta[j])
                    rec.check(d <= 1e-7, 'delta', case, lambda: 'strike %r misses the quoted delta by %r' % (K[j], d))
                    for cp in (1, -1):
                        rec.check(abs(float(res[cp]['market_data_inputs']['vol'].iloc[j]) - v) <= 1e-8, 'vol', case, lambda: 'vol %r, quoted %r' % (float(res[cp]['market_data_inputs']['vol'].iloc[j]), v))
                        x, w = float(np.ravel(res[cp]['price'])[j]), price(cp, F, K[j], v * math.sqrt(t), m.S / F * math.exp(-rf * t))
                        rec.check(abs(x - w) <= 1e-8 * m.S, 'price', dict(case, cp=cp), lambda: '%r want %r' % (x, w))


def conv_of(c):
    """delta neutral straddles: with premium-adjusted deltas if the smile is"""
    return c


def do_daily(u, rec):
    for nq, basis in ((5, 'ACT_ACT'), (3, 'ACT_365'), (5, 'ACT_360')):
        m = Market(u['pair'], u['start'], nq, u['conv'], basis)
        case0 = dict(pair=u['pair'], start=u['start'], conv=u['conv'], quotes=nq, basis=basis)
        ok, s = rec.call('raises', case0, m.surface)
        if not ok:
            continue
        df = s.vol_smile_daily_df
        days = [m.exp[0] + timedelta(i) for i in range((m.exp[-1] - m.exp[0]).days + 1)]
        if not rec.check([x.date() for x in df['expiry_date']] == days, 'days', case0, lambda: repr((df['expiry_date'].iloc[0], df['expiry_date'].iloc[-1], len(df)))):
            continue
        V = df[m.names].to_numpy(float)
        rows = df[['expiry_years', 'fx_forward_rate', 'domestic_zero_rate', 'foreign_zero_rate']].to_numpy(float)
        cv = list(df['delta_convention'])
        zr = [np.ravel(z.get_zero_rates(dates=pd.DatetimeIndex(days), compounding_freq=CompoundingFreq.CONTINUOUS)) for z in (m.dom, m.frn)]
        for i, d in enumerate(days):
            case = dict(case0, date=d)
            rec.state(repr(case))
            rec.step()
            rec.trace()
            w, c = m.vols(d)
            rec.outcome(round(w[0], 9))
            rec.check(np.allclose(V[i], w, rtol=0, atol=1e-10) and cv[i] == c, 'daily_vol', case, lambda: '%r want %r %s' % (V[i], w, c))
            rec.check(np.allclose(rows[i], [m.years(d), m.forward(d), zr[0][i], zr[1][i]], rtol=1e-11, atol=1e-12), 'daily_market', case, lambda: '%r want %r' % (rows[i], (m.years(d), m.forward(d), zr[0][i], zr[1][i])))
        # on every 9th day the smile passes through the day's own quotes
        for i in range(0, len(days), 9):
            d = days[i]
            w, c = m.vols(d)
            t, F, (rd, rf) = m.years(d), m.forward(d), (zr[0][i], zr[1][i])
            case = dict(case0, date=d)
            K = strikes(m, w, F, t, rf, c)
            ok, r = rec.call('raises_interp', case, s.interp_vol_surface, pd.DatetimeIndex([ts(d)] * len(K)), np.array(K), np.array([1.0, -1.0] * 5)[:len(K)])
            if ok:
                rec.trace()
                rec.check(np.allclose(r['vol'].to_numpy(float), w, rtol=0, atol=1e-7), 'smile', case, lambda: '%r want %r' % (list(r['vol']), w))


def strikes(m, vols, F, t, rf, conv):
    """strike of each quote by bisection on its definition, on the branch right of the maximum for premium-adjusted calls"""
    out = []
    for v, dl in zip(vols, m.delta):
        s = v * math.sqrt(t)
        if dl == 0.5:
            out.append(F * math.exp(-s * s / 2 if conv.startswith('premium') else s * s / 2))
            continue
        cp = 1 if dl > 0 else -1
        lo, hi = F * math.exp(-8 * s), F * math.exp(8 * s)
        if conv.startswith('premium') and cp == 1:
            a, b = -60.0, 60.0
            from mc.ref.options import n
            for _ in range(120):
                x = (a + b) / 2
                a, b = (x, b) if s * N(x) < n(x) else (a, x)
            lo = F * math.exp(-a * s - s * s / 2)
        sgn = -1   # calls: delta falls with the strike; puts: delta (negative) falls too
        for _ in range(120):
            k = (lo + hi) / 2
            if (delta_of(k, F, t, rf, v, cp, conv) - dl) * sgn < 0:
                lo = k
            else:
                hi = k
        out.append((lo + hi) / 2)
    return out


def same(a, b, m):
    for f in ('vol_smile_pillar_df', 'vol_smile_daily_df', 'strike_pillar_df'):
        x, y = getattr(a, f), getattr(b, f)
        cols = ['expiry_date', 'expiry_years', 'fx_forward_rate', 'domestic_zero_rate', 'foreign_zero_rate', 'delta_convention'] + m.names
        if len(x) != len(y):
            return '%s has %d rows, not %d' % (f, len(x), len(y))
        for c in cols:
            u, v = x[c].to_numpy(), y[c].to_numpy()
            if c in ('expiry_date', 'delta_convention'):
                if not (u == v).all():
                    return '%s %s %r want %r' % (f, c, u[:5], v[:5])
            elif not np.allclose(u.astype(float), v.astype(float), rtol=0, atol=1e-12 * max(1, m.S)):
                return '%s %s %r want %r' % (f, c, u[:5], v[:5])
    return ''


def do_represent(u, rec):
    m = Market(u['pair'], u['start'], 5)
    base = m.surface()
    fc, q = m.forwards(), m.quotes()
    alt = {}
    for p in ([4, 3, 2, 1, 0], [2, 0, 4, 1, 3], [1, 2, 3, 4, 0]):
        alt['quote rows %s' % p] = dict(vq=q.iloc[p])
        alt['quote rows %s reindexed' % p] = dict(vq=q.iloc[p].reset_index(drop=True))
    for p in ([6, 5, 4, 3, 2, 1, 0], [3, 0, 6, 1, 5, 2, 4]):
        alt['forward rows %s' % p] = dict(fc=fc.iloc[p])
    for i, p in enumerate(itertools.permutations([c for c in q.columns if c not in ('tenor', 'delta_convention')])):
        if i % 8 == 3:
            alt['quote columns %s' % (p,)] = dict(vq=q[['delta_convention', *p, 'tenor']])
    alt['call/put'] = dict(vq=m.quotes(False))
    alt['call/put reversed'] = dict(vq=m.quotes(False)[['tenor'] + m.names[::-1] + ['delta_convention']])
    alt['short names'] = dict(vq=m.quotes(True, lambda n: n.replace('risk_reversal', 'rr').replace('butterfly', 'bf').replace('_delta', 'Δ').replace('atmΔ', 'atm_Δ')))
    alt['spaced names'] = dict(vq=m.quotes(True, lambda n: n.replace('_', ' ').replace('atm', 'at the money')))
    alt['both'] = dict(vq=pd.concat([m.quotes(True), m.quotes(False)[[c for c in m.names if c[0] != 'a']]], axis=1))
    deliv = [ts(bd_offset(e, m.off, 'FOLLOWING', m.cal)) for e in m.exp]
    for k, v in (('expiry_date', [ts(e) for e in m.exp]), ('delivery_date', deliv)):
        alt['quotes by ' + k] = dict(vq=q.drop(columns='tenor').assign(**{k: v}))
        alt['quotes by tenor and ' + k] = dict(vq=q.assign(**{k: v}))
        alt['quotes partly by ' + k] = dict(vq=q.assign(**{k: [x if i % 2 else pd.NaT for i, x in enumerate(v)], 'tenor': [None if i % 2 else t for i, t in enumerate(TEN)]}))
    fd = [ts(a) for a, _ in m.fpil]
    fdel = [ts(bd_offset(a, m.off, 'FOLLOWING', m.cal)) for a, _ in m.fpil]
    alt['forwards by fixing'] = dict(fc=fc.drop(columns='tenor').assign(fixing_date=fd))
    alt['forwards by delivery'] = dict(fc=fc.drop(columns='tenor').assign(delivery_date=fdel))
    alt['forwards by tenor and both'] = dict(fc=fc.assign(fixing_date=fd, delivery_date=fdel))
    alt['forwards as objects'] = dict(fc=fc.astype(object))
    alt['quotes as objects'] = dict(vq=q.astype(object))
    # outright points delivered before spot (cash, tom) come first in the curve but are not the spot rate
    for k in range(1, m.off + 1):
        pre = [ts(bd_offset(m.spot_date, -j, 'PRECEDING', m.cal)) for j in range(1, k + 1)]
        rows = pd.DataFrame({'delivery_date': pre, 'fx_forward_rate': [m.S * (1 - .01 * j) for j in range(1, k + 1)]})
        alt['%d points before spot' % k] = dict(fc=pd.concat([rows, fc.drop(columns='tenor').assign(delivery_date=fdel)], ignore_index=True))
        alt['%d points before spot, tenors' % k] = dict(fc=pd.concat([rows.assign(tenor=None), fc], ignore_index=True))
        alt['%d points before spot, at the end' % k] = dict(fc=pd.concat([fc, rows.assign(tenor=None)], ignore_index=True))
    sd = ts(m.spot_date)
    alt['curve and spot date'] = dict(curve_date=ts(m.start), spot_date=sd)
    alt['all dates'] = dict(curve_date=ts(m.start), spot_date=sd, spot_offset=m.off)
    alt['curve date and offset'] = dict(curve_date=ts(m.start), spot_offset=m.off)
    alt['capitals in tenors'] = dict(vq=q.assign(tenor=['1 Week', '1M', '3 Months', '1Y', '2 years']))
    if m.cal.bd(m.start):
        alt['spot date'] = dict(spot_date=sd)
        alt['spot date and offset'] = dict(spot_date=sd, spot_offset=m.off)
    for name, kw in alt.items():
        case = dict(pair=u['pair'], start=u['start'], variant=name)
        rec.state(repr(case))
        keep = {k: kw[k].copy() for k in ('vq', 'fc') if k in kw}
        ok, s = rec.call('raises', case, m.surface, **kw)
        if ok:
            rec.trace()
            rec.outcome(name)
            d = same(s, base, m)
            rec.check(not d, 'representation', case, d)
            rec.check(s.fx_spot_rate == m.S and s.spot_date == ts(m.spot_date), 'spot', case, lambda: 'spot %r on %s want %r on %s' % (s.fx_spot_rate, s.spot_date, m.S, m.spot_date))
        rec.check(all(keep[k].equals(kw[k]) for k in keep), 'mutated', case, 'a dataframe given was modified')
    again = m.surface(vq=q, fc=fc)
    rec.check(not same(again, base, m), 'again', dict(pair=u['pair']), lambda: same(again, base, m))


def queries(m):
    d = [m.exp[1], m.exp[2] + timedelta(20), m.exp[4], m.exp[0] + timedelta(1)]
    K = [m.S * k for k in (0.93, 0.99, 1.0, 1.04, 1.1)]
    return [([d[0]], [K[2]], [1]), ([d[1], d[0], d[1]], [K[1], K[3], K[4]], [-1, 1, 1]), ([d[2], d[2]], [K[0], K[4]], [1, -1]), ([d[3], d[2], d[1], d[0]], K[:4], [1, 1, -1, -1]), ([d[0]] * 5, K, [-1] * 5), ([d[1]], [K[0]], [-1])]


def do_history(u, rec):
    m = Market('audusd', '2023-06-30', 5)
    Q = queries(m)

    def ask(s, i):
        d, k, cp = Q[i]
        r = s.price_vanilla_european(pd.DatetimeIndex([ts(x) for x in d]), np.array(k), np.array(cp), analytical_greeks_flag=bool(i % 2))
        return np.concatenate([np.ravel(r['price']), r['market_data_inputs'].to_numpy(float).ravel()])
    fresh = {}
    for i in range(6):
        fresh[i] = ask(m.surface(u['method']), i)
        # vector answers equal one question at a time
        d, k, cp = Q[i]
        s = m.surface(u['method'])
        for j in range(len(d)):
            r = s.price_vanilla_european(pd.DatetimeIndex([ts(d[j])]), k[j], cp[j])
            rec.check(abs(float(np.ravel(r['price'])[0]) - fresh[i][j]) <= 1e-12, 'scalar', dict(query=i, element=j), lambda: '%r in a vector %r' % (r['price'], fresh[i][j]))
    depth = 3 if u['tier'] == 'quick' else 4
    base = m.surface(u['method'])
    for tail in itertools.product(range(6), repeat=depth - 1):
        seq = (u['first'],) + tail
        s = m.surface(u['method']) if tail[0] == tail[-1] else base.__class__.__new__(base.__class__)
        if tail[0] != tail[-1]:
            s.__dict__.update({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in base.__dict__.items()})
        for n, i in enumerate(seq):
            case = dict(sequence=seq, position=n, method=u['method'])
            rec.state(repr(seq[:n + 1]), u['method'])
            ok, r = rec.call('raises', case, ask, s, i)
            if ok:
                rec.trace()
                rec.check((np.shape(r) == np.shape(fresh[i]) and np.allclose(r, fresh[i], rtol=1e-11, atol=1e-13, equal_nan=True)), 'history', case, lambda: '%r on a fresh surface %r' % (r[:5], fresh[i][:5]))
        rec.check(s.vol_smile_daily_df.equals(base.vol_smile_daily_df) and s.vol_smile_pillar_df.equals(base.vol_smile_pillar_df), 'state', dict(sequence=seq), 'a query changed the surface')


def do_mc(u, rec):
    m = Market(u['pair'], u['start'], 3)
    s = m.surface()
    k = 5 if u['tier'] == 'quick' else 7
    fix = [follow(m.exp[0] + timedelta(x), m.cal) for x in (0, 5, 40, 131, 300, 500, 690)][:k]
    for n in range(1, k + 1):
        for sel in itertools.combinations(fix, n):
            grid = [ts(bd_offset(x, m.off, 'FOLLOWING', m.cal)) for x in sel]
            for form, g in (('sorted', grid), ('reversed, duplicated, with the spot date', grid[::-1] + grid[:1] + [ts(m.spot_date)])):
                case = dict(pair=u['pair'], start=u['start'], fixings=sel, form=form)
                rec.state(repr(case))
                ok, r = rec.call('raises', case, s.simulate_gbm_fx_rate_path, pd.DatetimeIndex(g), 6, bool(n % 2))
                if not ok:
                    continue
                rec.trace()
                sc, x = r['gbm_monte_carlo_market_data_inputs'], r['fx_rate_simulation_paths']
                F = [m.S] + [m.forward(d) for d in sel]
                t = [0.0] + [m.years(d) for d in sel]
                v = [0.0] + [m.vols(d)[0][1] for d in sel]
                if not rec.check(x.shape == (n + 1, 1, 6) and list(sc['fixing_date']) == [ts(m.start)] + [ts(d) for d in sel] and list(sc['delivery_date']) == [ts(m.spot_date)] + grid, 'grid', case, lambda: repr(sc.to_dict('list'))):
                    continue
                z = generate_rand_nbs(n, 1, 6, bool(n % 2))
                w = np.full(6, m.S)
                bad = np.any(x[0] != m.S)
                for i in range(n):
                    var = v[i + 1] ** 2 * t[i + 1] - v[i] ** 2 * t[i]
                    w = w * F[i + 1] / F[i] * np.exp(-var / 2 + math.sqrt(var) * z[i, 0])
                    bad = bad or not np.allclose(x[i + 1, 0], w, rtol=1e-9, atol=0)
                rec.outcome(round(float(w[0]), 8))
                rec.check(not bad, 'path', case, lambda: '%r want %r' % (x[-1, 0], w))


def do_heston(u, rec):
    m = Market(u['pair'], '2023-06-30', 5)
    s = m.surface(u['method'])
    for i in (1, 2, 3):
        e = m.exp[i]
        K = s.strike_pillar_df[m.names].iloc[i].to_numpy(float)
        out = {}
        for cp in (1, -1):
            case = dict(pair=u['pair'], method=u['method'], expiry=e, cp=cp)
            rec.state(repr(case))
            ok, r = rec.call('raises', case, s.price_vanilla_european, pd.DatetimeIndex([ts(e)] * 5), K, np.full(5, cp))
            if ok:
                rec.trace()
                out[cp] = r['market_data_inputs']['vol'].to_numpy(float)
                q = np.array([m.q[n][i] for n in m.names])
                rec.outcome(round(float(out[cp][0]), 7))
                rec.check(np.all(abs(out[cp] - q) <= 0.003), 'heston_fit', case, lambda: '%r quoted %r' % (out[cp], q))
        if len(out) == 2:
            rec.check(np.allclose(out[1], out[-1], rtol=0, atol=2e-5), 'parity', dict(pair=u['pair'], expiry=e), lambda: 'call vols %r put vols %r' % (out[1], out[-1]))


def do_heston_mc(u, rec):
    m = Market(u['pair'], '2023-06-30', 5)
    s = m.surface('HESTON_COSINE')
    fix = [follow(m.exp[0] + timedelta(x), m.cal) for x in (24, 100, 300, 500)][:3 if u['tier'] == 'quick' else 4]
    for n in range(1, len(fix) + 1):
        for sel in itertools.combinations(fix, n):
            grid = [ts(bd_offset(x, m.off, 'FOLLOWING', m.cal)) for x in sel]
            for form, g in (('sorted', grid), ('reversed, duplicated, with the spot date', grid[::-1] + grid[:1] + [ts(m.spot_date)])):
                for anti in (True, False):
                    case = dict(pair=u['pair'], fixings=sel, form=form, antithetic=anti)
                    rec.state(repr(case))
                    ok, r = rec.call('raises', case, s.simulate_heston_fx_rate_path, pd.DatetimeIndex(g), 6, anti)
                    if not ok or not rec.check(list(r) == grid, 'grid', case, lambda: '%r' % list(r)):
                        continue
                    rec.trace()
                    for f, d in zip(sel, grid):
                        t, P = m.years(f), s.vol_smile_daily_func[ts(f)]
                        w = heston_simulate(S0=m.S, mu=math.log(m.forward(f) / m.S) / t, tau=t, rand_nbs=generate_rand_nbs(100, 2, 6, anti), **{k: P[k] for k in ('var0', 'vv', 'kappa', 'theta', 'rho')})
                        rec.outcome(round(float(w[-1, 0, 0]), 7))
                        rec.check(r[d].shape == w.shape and np.allclose(r[d], w, rtol=1e-7, atol=1e-12), 'heston_path', dict(case, delivery=d), lambda: '%r want %r' % (r[d][-1, 0], w[-1, 0]))


def do_reject(u, rec):
    m = Market('audusd', '2023-06-30', 5)
    s = m.surface()
    d = pd.DatetimeIndex([ts(m.exp[1])])
    wrong = Market('audusd', '2023-11-24', 5)
    cases = {
        'before the first expiry': lambda: s.interp_vol_surface(pd.DatetimeIndex([ts(m.exp[0] - timedelta(1))]), .66, 1),
        'after the last expiry': lambda: s.interp_vol_surface(pd.DatetimeIndex([ts(m.exp[-1] + timedelta(1))]), .66, 1),
        'one of two out of range': lambda: s.interp_vol_surface(pd.DatetimeIndex([ts(m.exp[1]), ts(m.exp[-1] + timedelta(1))]), [.66, .66], [1, 1]),
        'strikes do not match': lambda: s.interp_vol_surface(d, [.66, .67], 1),
        'flags do not match': lambda: s.price_vanilla_european(d, .66, [1, 1]),
        'curve dates differ': lambda: wrong.surface(curve_date=ts(m.start)),
        'no dates': lambda: m.surface(spot_offset=2),
        'inconsistent dates': lambda: m.surface(curve_date=ts(m.start), spot_date=ts(m.spot_date), spot_offset=3),
        'no spot rate': lambda: m.surface(fc=m.forwards().iloc[1:]),
        'too few quotes': lambda: Market('audusd', '2023-06-30', 3).surface('CUBIC_SPLINE').interp_vol_surface(d, .66, 1),
        'no at the money quote': lambda: m.surface(vq=m.quotes().drop(columns='atm_delta_neutral')),
        'simulation beyond the surface': lambda: s.simulate_gbm_fx_rate_path(pd.DatetimeIndex([ts(m.exp[-1] + timedelta(30))]), 4, False)}
    for name, f in cases.items():
        rec.step()
        rec.state(name)
        try:
            f()
            rec.fail('accepted', dict(case=name), 'no error')
        except Exception:
            rec.outcome(name)
