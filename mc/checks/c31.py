"""C31: the caplet term structure is bootstrapped on exactly the optionlets of its quotes, reprices the quotes it was built from, and prices any schedule off the same volatilities."""
import itertools, math, warnings, io, contextlib
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.enums import DayCountBasis, CompoundingFreq, PeriodFreq, ZeroCurveInterpMethod, RollConv
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.optionlet import Optionlet
from frm.utils import BaseSchedule
from mc.ref.dates import ref_years
from mc.ref.sched import Cal, follow, bd_offset, add_months
from mc.ref.options import black, bachelier
from mc.checks.c23 import hagan, coeffs, min_positive

BOUNDS = {
    'quick': '3 settlement dates (month end, holidays, leap day) x 4 curves x {quarterly, semi-annual} x 3 quote sets x {fixed, free} beta, 5 strikes per quote; on each surface 6 schedules (its own, parts, off-grid, long; two with payment delays) x '
             '{scalar, vector, list} strikes x {Black, Bachelier, smile} x 2 day counts; every order of the quote rows, every spelling of relative and absolute quote names and 10 other representations; ACT/365 and ACT/360 curves; every missing or conflicting input',
    'thorough': '6 settlement dates, monthly optionlets, 5 quote sets, a mixed fixed/free beta column'}
ASSUMPTIONS = ['zero curves are right (C12-C15), Hagan smiles as in C23', 'the at-the-money volatility and the smile parameters are linear in time between the last optionlets of two quotes and flat up to the first (documented)',
               'quotes generated by such a smile are repriced to 2e-4 on a flat curve with fixed beta and to 3% otherwise, as the at-the-money bootstrap treats every optionlet as at the money (documented simplification)']
ts = pd.Timestamp
HOL = [date(2024, 7, 4), date(2024, 10, 1), date(2024, 12, 25), date(2025, 1, 1), date(2025, 4, 18), date(2025, 4, 21), date(2025, 12, 25), date(2026, 1, 1), date(2027, 1, 1)]
CURVES = {'flat': [.04] * 6, 'up': [.03, .031, .033, .036, .039, .041], 'hump': [.043, .044, .046, .044, .041, .042], 'neg': [-.005, -.0045, -.003, 0., .004, .007]}
SHIFT = {'flat': .02, 'up': 0., 'hump': .01, 'neg': .03}
FREQ = {'QUARTERLY': 3, 'SEMIANNUAL': 6, 'MONTHLY': 1}
STARTS = ['2024-06-28', '2024-07-03', '2024-08-29', '2024-02-28', '2024-11-29', '2024-01-30']
OFF = {'atm': 0., '-100bps': -.01, '-50 bps': -.005, '+50bps': .005, '1%': .01}
NAMES = ['atmf', '-100bps', '-50bps', '50bps', '100bps']


class Ref:
    def __init__(self, u):
        self.u, self.cache = u, {}
        self.cd = date.fromisoformat(u['start'])
        self.cal = Cal('1111100', HOL)
        self.sh = SHIFT[u['curve']]
        f = FREQ[u['freq']]
        self.settle = bd_offset(self.cd, u['delay'], 'FOLLOWING', self.cal)
        ten = self.ten = sorted(u['tenors'])
        self.term = [follow(add_months(self.settle, 12 * t), self.cal) for t in ten]
        self.first = add_months(self.settle, f)
        end = add_months(self.settle, 12 * ten[-1])
        b, k = [end], 1
        while add_months(end, -k * f) > self.first:
            b.append(add_months(end, -k * f))
            k += 1
        b = [self.first] + b[::-1]
        self.b = [follow(x, self.cal) for x in b]
        self.per = list(zip(self.b[:-1], self.b[1:]))
        self.basis = u.get('basis', 'ACT_365')
        self.zc = ZeroCurve(curve_date=ts(self.cd), pillar_df=pd.DataFrame({'tenor': ['3m', '6m', '1y', '2y', '4y', '6y'], 'zero_rate': CURVES[u['curve']]}), day_count_basis=DayCountBasis[self.basis],
                            compounding_freq=CompoundingFreq.CONTINUOUS, cal=np.busdaycalendar(weekmask='1111100', holidays=HOL), interp_method=ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT)
        self.opt = [self.optionlet(s, e) for s, e in self.per]
        self.q = [min(i for i, t in enumerate(self.term) if e <= t) for s, e in self.per]
        self.n = [[o for o, q in zip(self.opt, self.q) if q <= i] for i in range(len(ten))]
        self.F = [sum(o['F'] * o['ann'] for o in x) / sum(o['ann'] for o in x) for x in self.n]

    def yf(self, s, e):
        return float(ref_years(self.basis, s, e))

    def df(self, d):
        if d not in self.cache:
            self.cache[d] = self._df(d)
        return self.cache[d]

    def _df(self, d):
        return float(np.asarray(self.zc.get_discount_factors(dates=pd.DatetimeIndex([ts(d)])))[0])

    def optionlet(self, s, e):
        y = self.yf(s, e)
        return dict(s=s, e=e, y=y, df=self.df(e), ann=y * self.df(e), tau=self.yf(self.cd, s), F=(self.df(s) / self.df(e) - 1) / y)

    def interp(self, pillars, t):
        """first pillar value up to the last optionlet of the first quote, linear between the last optionlets of each quote"""
        x = [self.n[i][-1]['tau'] for i in range(len(self.n))]
        return float(np.interp(t, x, pillars))

    def smile(self, o, P, K):
        b, r, v, vn = [self.interp(P[k], o['tau']) for k in ('beta', 'rho', 'volvol', 'vn')]
        return hagan(o['tau'], o['F'], self.alpha(o, b, r, v, vn), b, r, v, K, self.sh)

    def alpha(self, o, b, r, v, vn):
        c, g = coeffs(o['tau'], o['F'] + self.sh, b, r, v, self.sln_atm(o, vn))
        return min_positive(c, g)

    def sln_atm(self, o, vn):
        target = bachelier(o['F'], o['F'], o['tau'], vn, 1)[0]
        return bisect(lambda x: black(o['F'], o['F'], o['tau'], x, 1, self.sh)[0] - target, 1e-6, 8)

    def cap_sln(self, i, K, cp, vol):
        return sum(black(o['F'], K, o['tau'], vol, cp, self.sh, o['ann'])[0] for o in self.n[i])

    def cap_n(self, i, K, cp, vol):
        return sum(bachelier(o['F'], K, o['tau'], vol, cp, o['ann'])[0] for o in self.n[i])

    def cap_true(self, i, K, cp, P):
        return sum(black(o['F'], K, o['tau'], self.smile(o, P, K), cp, self.sh, o['ann'])[0] for o in self.n[i])


def bisect(f, a, b, n=100):
    fa = f(a)
    for _ in range(n):
        m = (a + b) / 2
        fm = f(m)
        if (fm > 0) == (fa > 0):
            a = m
        else:
            b = m
    return (a + b) / 2


def quotes(R, P):
    rows = []
    for i, t in enumerate(R.ten):
        row = {'tenor': '%dy' % t}
        for c, d in OFF.items():
            K = R.F[i] + d
            cp = 1 if d > 0 else -1
            px = R.cap_true(i, K, cp, P)
            row[c] = bisect(lambda v: R.cap_sln(i, K, cp, v) - px, 1e-4, 5)
        rows.append(row)
    return pd.DataFrame(rows)


def build(R, df, **kw):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return Optionlet(curve_date=ts(R.cd), quote_vol_sln=df, ln_shift=R.sh, zero_curve=R.zc, optionlet_freq=PeriodFreq[R.u['freq']], busdaycal=np.busdaycalendar(weekmask='1111100', holidays=HOL), **kw)




PAR = dict(beta=[.5] * 5, rho=[-.2, -.25, -.15, -.1, 0.], volvol=[.6, .5, .4, .35, .3], vn=[.009, .0095, .0092, .0088, .0085])
TENORS = {'a': [1, 2, 3], 'b': [1, 3, 5], 'c': [2], 'd': [1, 2, 3, 4, 5], 'e': [2, 3]}


def units(tier):
    q = tier == 'quick'
    out = []
    for (i, s), (j, c), (k, f), (l, t) in itertools.product(enumerate(STARTS[:3] if q else STARTS), enumerate(CURVES), enumerate(['QUARTERLY', 'SEMIANNUAL'] if q else FREQ), enumerate(['a', 'b', 'c'] if q else TENORS)):
        if (q and (i + j + k + l) % 3) or (f == 'MONTHLY' and t in 'bd'):
            continue
        for b in (('fixed', 'free') if q else ('fixed', 'free', 'mixed')):
            if q and b == 'free' and (i + j + l) % 2:
                continue
            out.append(dict(kind='boot', start=s, curve=c, freq=f, tenors=TENORS[t], delay=(i + j) % 3, beta=b, basis=['ACT_365', 'ACT_360'][(j + l) % 2], tier=tier))
    out += [dict(out[k], beta='zero') for k in ((0, 5) if q else range(0, len(out), 7))]
    return out + [dict(kind='names')] + [dict(kind='represent', part=i, start=STARTS[0], curve='up', freq='SEMIANNUAL', tenors=[1, 2, 3], delay=1) for i in range(8)] + [dict(kind='reject', start=STARTS[0], curve='flat', freq='SEMIANNUAL', tenors=[1, 2], delay=1)]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def rel(x, y, tol):
    return x == x and abs(x - y) <= tol * max(abs(y), 1e-9)


def betas(u, n):
    return {'fixed': [.5] * n, 'free': None, 'zero': [0.] * n, 'mixed': [.5 if i % 2 == 0 else float('nan') for i in range(n)]}[u.get('beta', 'fixed')]


def do_boot(u, rec):
    R = Ref(u)
    n = len(R.ten)
    P = {k: v[:n] for k, v in PAR.items()}
    df = quotes(R, P)
    if betas(u, n):
        df['beta'] = betas(u, n)
    base = {k: v for k, v in u.items() if k not in ('kind', 'tier')}
    rec.state(repr(base))
    before = df.copy(deep=True)
    ok, o = rec.call('raises', base, build, R, df, settlement_delay=u['delay'])
    if not ok:
        return
    rec.check(df.equals(before) and list(df.columns) == list(before.columns), 'mutated', base, lambda: 'the quotes became %r' % df.to_dict())
    T = o.term_structure
    # the optionlets
    got = list(zip(T['period_start'], T['period_end'], T['payment_date'])) if len(T) == len(R.opt) else None
    rec.check(got is not None and all(a == ts(x['s']) and b == c == ts(x['e']) for (a, b, c), x in zip(got, R.opt)), 'periods', base,
              lambda: 'optionlets %r, expected %r' % ([(str(a)[:10], str(b)[:10]) for a, b in zip(T['period_start'], T['period_end'])], [(str(a), str(b)) for a, b in R.per]))
    if got is None:
        return
    num = lambda c: np.asarray(T[c], float)
    for c, k in (('period_yearfrac', 'y'), ('discount_factors', 'df'), ('annuity_factor', 'ann'), ('expiry_years', 'tau'), ('F', 'F')):
        rec.check(np.allclose(num(c), [x[k] for x in R.opt], rtol=1e-9, atol=1e-12), 'column', dict(base, col=c), lambda: '%r, expected %r' % (num(c).tolist(), [x[k] for x in R.opt]))
    rec.check(list(num('quote_nb')) == R.q, 'coverage', base, lambda: 'optionlets belong to quotes %r, expected %r' % (list(num('quote_nb')), R.q))
    Q = o.quote_vol_sln
    for i in range(n):
        case = dict(base, quote=i)
        rec.check(Q.loc[i, 'tenor'] == '%dy' % R.ten[i] and Q.loc[i, 'termination_date'] == ts(R.term[i]) and Q.loc[i, 'settlement_date'] == ts(R.settle) and Q.loc[i, 'effective_date'] == ts(R.b[0]), 'quote_dates', case, lambda: '%r' % Q.loc[i].to_dict())
        rec.check(rel(Q.loc[i, 'F'], R.F[i], 1e-9), 'quote_forward', case, lambda: '%r, expected %r' % (Q.loc[i, 'F'], R.F[i]))
        rec.check(rel(Q.loc[i, 'term_years'], R.yf(R.b[0], R.term[i]), 1e-9) and rel(Q.loc[i, 'last_optionlet_expiry_years'], R.yf(R.cd, follow(add_months(R.settle, 12 * R.ten[i] - FREQ[u['freq']]), R.cal)), 1e-9), 'quote_years', case, lambda: '%r' % Q.loc[i].to_dict())
    # the quotes, and their price in either quotation
    names = dict(zip(OFF, NAMES))
    for i, (c, d) in itertools.product(range(n), OFF.items()):
        case = dict(base, quote=i, strike=c)
        rec.state(repr(case))
        rec.step()
        nc, K, cp = names[c], R.F[i] + d, 1 if d > 0 else -1
        px = R.cap_sln(i, K, cp, float(before.loc[i, c]))
        rec.check(rel(float(o.quote_strikes.loc[i, nc]), K, 1e-9) and int(o.quote_cp.loc[i, nc]) == cp, 'strike', case, lambda: '%r %r, expected %r %r' % (o.quote_strikes.loc[i, nc], o.quote_cp.loc[i, nc], K, cp))
        rec.check(rel(float(o.quote_pxs.loc[i, nc]), px, 1e-8), 'quote_price', case, lambda: '%r, expected %r' % (o.quote_pxs.loc[i, nc], px))
        x = R.cap_n(i, K, cp, float(o.quote_vol_n.loc[i, nc]))
        rec.check(rel(x, px, 1e-4), 'normal_vol', case, lambda: 'the normal volatility %r prices at %r, the quote is %r' % (o.quote_vol_n.loc[i, nc], x, px))
    # the term structure
    G = {k: [float(T.loc[len(x) - 1, c]) for x in R.n] for k, c in (('beta', 'beta'), ('rho', 'rho'), ('volvol', 'volvol'), ('vn', 'vol_n_atm'))}
    rec.check(rel(G['vn'][0], float(o.quote_vol_n.loc[0, 'atmf']), 1e-9), 'first_atm', base, lambda: '%r, the quote is %r' % (G['vn'][0], o.quote_vol_n.loc[0, 'atmf']))
    rec.check(all(0 <= b <= 1 and -1 < r < 1 and v > 0 for b, r, v in zip(G['beta'], G['rho'], G['volvol'])), 'domain', base, lambda: '%r' % G)
    bb = betas(u, n) or [float('nan')] * n
    rec.check(all(b != b or b == g for b, g in zip(bb, G['beta'])), 'beta', base, lambda: '%r, given %r' % (G['beta'], bb))
    for j, x in enumerate(R.opt):
        case = dict(base, optionlet=j)
        rec.step()
        e = [R.interp(G[k], x['tau']) for k in ('beta', 'rho', 'volvol', 'vn')]
        g = [float(T.loc[j, c]) for c in ('beta', 'rho', 'volvol', 'vol_n_atm')]
        rec.check(np.allclose(g, e, rtol=1e-8, atol=1e-10), 'linear', case, lambda: '%r, expected %r' % (g, e))
        v, a = R.sln_atm(x, e[3]), R.alpha(x, *e)
        rec.check(rel(float(T.loc[j, 'vol_sln_atm']), v, 1e-6) and rel(float(T.loc[j, 'alpha']), a, 1e-6), 'alpha', case, lambda: 'vol %r alpha %r, expected %r %r' % (T.loc[j, 'vol_sln_atm'], T.loc[j, 'alpha'], v, a))
    # it reprices its quotes
    tol = 2e-4 if u['curve'] == 'flat' and u['beta'] == 'fixed' else .03
    for i, (c, d) in itertools.product(range(n), OFF.items()):
        case = dict(base, quote=i, strike=c)
        K, cp = R.F[i] + d, 1 if d > 0 else -1
        x, e = R.cap_true(i, K, cp, G), R.cap_sln(i, K, cp, float(before.loc[i, c]))
        rec.check(rel(x, e, tol), 'reprice', case, lambda: 'the term structure prices at %r, the quote is %r (%.2g off)' % (x, e, x / e - 1))
        rec.outcome(u['curve'], i, c, round(x, 8))
    for i in range(1, n):
        # documented: the at-the-money volatility makes prior optionlets off their smile plus current optionlets off the interpolated normal volatility worth the quote
        K = R.F[i]
        cp = -1
        prior = [x for x, q in zip(R.opt, R.q) if q < i]
        cur = [x for x, q in zip(R.opt, R.q) if q == i]
        pp = prior[-1]
        vk = R.smile(pp, G, K)
        pk = black(pp['F'], K, pp['tau'], vk, -1 if K < pp['F'] else 1, R.sh)[0]
        v0 = bisect(lambda w: bachelier(pp['F'], K, pp['tau'], w, -1 if K < pp['F'] else 1)[0] - pk, 1e-7, 1)
        tot = sum(black(x['F'], K, x['tau'], R.smile(x, G, K), cp, R.sh, x['ann'])[0] for x in prior)
        tot += sum(bachelier(x['F'], K, x['tau'], float(np.interp(x['tau'], [pp['tau'], cur[-1]['tau']], [v0, G['vn'][i]])), cp, x['ann'])[0] for x in cur)
        e = R.cap_sln(i, K, cp, float(before.loc[i, 'atm']))
        rec.check(rel(tot, e, 2e-4), 'bootstrap', dict(base, quote=i), lambda: 'worth %r, the quote is %r' % (tot, e))
    price(u, rec, R, o, G, base)


def schedules(R, u):
    f = FREQ[u['freq']]
    end = follow(add_months(R.settle, 12 * R.ten[-1]), R.cal)
    s0 = R.b[0]
    out = [('own', s0, R.b[-1], u['freq'], R.per), ('first', s0, R.b[1], u['freq'], None), ('last', R.b[-2], R.b[-1], u['freq'], None),
           ('offgrid', s0 + timedelta(17), min(s0 + timedelta(17 + 300), R.b[-1]), 'MONTHLY', None), ('long', s0, R.b[-1], '_28_DAYS', None), ('half', R.b[len(R.b) // 2], R.b[-1], 'QUARTERLY', None)]
    return out


def price(u, rec, R, o, G, base):
    cal = np.busdaycalendar(weekmask='1111100', holidays=HOL)
    X = [(x['s'], [float(o.term_structure.loc[j, c]) for c in ('beta', 'rho', 'volvol', 'vol_n_atm')]) for j, x in enumerate(R.opt)]
    days = [(s - R.cd).days for s, _ in X]
    memo = {}
    for name, a, b, fr, _ in schedules(R, u):
        for k, dc in enumerate((DayCountBasis.ACT_365, DayCountBasis.ACT_360)):
            for wrap in ('scalar', 'array', 'list') if u['tier'] != 'quick' else ('scalar', 'array' if u['freq'] == 'QUARTERLY' else 'list'):
                if wrap != 'scalar' and k:
                    continue
                sch = lambda: BaseSchedule(start_date=ts(a), end_date=ts(b), freq=PeriodFreq[fr], cal=cal)
                lag = {'half': 5, 'offgrid': 2}.get(name, 0)
                s = sch()
                s.add_payment_dates(payment_delay=lag)
                n = len(s.df)
                case = dict(base, schedule=name, basis=dc.name, wrap=wrap)
                rec.state(repr(case))
                per = [(x.date(), y.date(), z.date()) for x, y, z in zip(s.df['period_start'], s.df['period_end'], s.df['payment_date'])]
                opts = []
                for x, y, z in per if (name, dc) not in memo else ():
                    d = dict(s=x, e=y, tau=R.yf(R.cd, x), F=(R.df(x) / R.df(y) - 1) / R.yf(x, y), y=float(ref_years(dc.name, x, y)))
                    d['ann'] = d['y'] * R.df(z)
                    d['par'] = [float(np.interp((x - R.cd).days, days, [p[q] for _, p in X])) for q in range(4)]
                    d['alpha'] = R.alpha(d, *d['par'])
                    opts.append(d)
                opts = memo.setdefault((name, dc), opts)
                Fm = sum(x['F'] for x in opts) / n
                Ks = [Fm + .004] * n if wrap == 'scalar' else [Fm + .002 * (q % 3 - 1) for q in range(n)]
                cps = [1] * n if wrap == 'scalar' else [1 if q % 2 else -1 for q in range(n)]
                K, cp = (Ks[0], 1) if wrap == 'scalar' else (np.array(Ks), np.array(cps)) if wrap == 'array' else (Ks, cps)

                def fresh():
                    q = sch()
                    q.add_payment_dates(payment_delay=lag)
                    return dict(schedule=q, K=K, cp=cp, day_count_basis=dc)
                for how in ('smile', 'sln', 'n'):
                    c2 = dict(case, how=how)
                    rec.step()
                    if how == 'smile':
                        ok, d = rec.call('price_raises', c2, o.price_optionlets_per_term_structure, **fresh())
                        v = [hagan(x['tau'], x['F'], x['alpha'], x['par'][0], x['par'][1], x['par'][2], kk, R.sh) for x, kk in zip(opts, Ks)]
                        e = [black(x['F'], kk, x['tau'], w, cc, R.sh, x['ann']) for x, kk, w, cc in zip(opts, Ks, v, cps)]
                    elif how == 'sln':
                        ok, d = rec.call('price_raises', c2, o.price_optionlets_per_flat_vol_sln, vol_sln_override=.3, **fresh())
                        e = [black(x['F'], kk, x['tau'], .3, cc, R.sh, x['ann']) for x, kk, cc in zip(opts, Ks, cps)]
                    else:
                        ok, d = rec.call('price_raises', c2, o.price_optionlets_per_flat_vol_n, vol_n_override=np.array([.011]), **fresh())
                        e = [bachelier(x['F'], kk, x['tau'], .011, cc, x['ann']) for x, kk, cc in zip(opts, Ks, cps)]
                    if not ok:
                        continue
                    rec.outcome(name, how, round(float(d['price'].sum()), 8))
                    rec.trace()
                    rec.check(len(d) == n and list(d['period_start']) == [ts(x) for x, _, _ in per], 'price_rows', c2, lambda: '%d rows for %d periods' % (len(d), n))
                    if len(d) != n:
                        continue
                    for j in range(n):
                        x, r = opts[j], d.iloc[j]
                        par = [float(r[q]) for q in ('beta', 'rho', 'volvol', 'vol_n_atm', 'alpha')]
                        rec.check(np.allclose(par, x['par'] + [x['alpha']], rtol=1e-6, atol=1e-9), 'interpolated', dict(c2, row=j), lambda: '%r, expected %r' % (par, x['par'] + [x['alpha']]))
                        rec.check(all(rel(float(r[q]), x[w], 1e-9) for q, w in (('F', 'F'), ('expiry_years', 'tau'), ('period_yearfrac', 'y'), ('annuity_factor', 'ann'))), 'inputs', dict(c2, row=j), lambda: '%r, expected %r' % (r.to_dict(), x))
                        ex = e[j][0]
                        intr = x['ann'] * max(0., cps[j] * (x['F'] - Ks[j]))
                        rec.check(abs(float(r['price']) - ex) <= 1e-6 * x['ann'] * .01 and abs(float(r['forward_price']) * x['ann'] - ex) <= 1e-8 and abs(float(r['intrinsic']) - intr) <= 1e-9 and abs(float(r['time']) + intr - ex) <= 1e-8, 'optionlet_price',
                                  dict(c2, row=j), lambda: '%r, expected price %r intrinsic %r' % (r.to_dict(), ex, intr))
                        unit = .0001 if how == 'n' else .01
                        rec.check(abs(float(r['vega']) - unit * e[j][2]) <= unit * 1e-7, 'optionlet_vega', dict(c2, row=j), lambda: '%r, expected %r' % (r['vega'], unit * e[j][2]))
                        rec.check(abs(float(r['delta']) - e[j][1]) <= 1e-5, 'optionlet_delta', dict(c2, row=j), lambda: '%r, expected %r' % (r['delta'], e[j][1]))
                if wrap == 'scalar' and not k:
                    ok, x = rec.call('flat_raises', case, o.price_optionlets_per_term_structure, solve_equivalent_flat_vol=True, **fresh())
                    if ok:
                        d, vs, vn = x
                        tot = float(d['price'].sum())
                        p1 = sum(black(y['F'], kk, y['tau'], float(np.asarray(vs).reshape(-1)[0]), cc, R.sh, y['ann'])[0] for y, kk, cc in zip(opts, Ks, cps))
                        p2 = sum(bachelier(y['F'], kk, y['tau'], float(np.asarray(vn).reshape(-1)[0]), cc, y['ann'])[0] for y, kk, cc in zip(opts, Ks, cps))
                        rec.check(rel(p1, tot, 1e-4) and rel(p2, tot, 1e-4), 'flat_vol', case, lambda: 'flat vols %r %r price at %r %r, the total is %r' % (vs, vn, p1, p2, tot))


def same(a, b):
    A, B = a.term_structure, b.term_structure
    return len(A) == len(B) and all(np.allclose(np.asarray(A[c], float), np.asarray(B[c], float), rtol=1e-9, atol=1e-12) for c in ('quote_nb', 'F', 'vol_n_atm', 'vol_sln_atm', 'alpha', 'beta', 'rho', 'volvol', 'annuity_factor', 'expiry_years'))


def do_represent(u, rec):
    R = Ref(u)
    n = len(R.ten)
    df = quotes(R, {k: v[:n] for k, v in PAR.items()})
    df['beta'] = .5
    o = build(R, df.copy(), settlement_delay=1)
    alts = []
    for p in itertools.permutations(range(n)):
        d = df.iloc[list(p)]
        alts.append((dict(rows=p), d, dict(settlement_delay=1)))
        alts.append((dict(rows=p, reset=True), d.reset_index(drop=True), dict(settlement_delay=1)))
    for p in list(itertools.permutations(list(df.columns)))[::97]:
        alts.append((dict(cols=p), df[list(p)], dict(settlement_delay=1)))
    for f in (lambda t: t.upper(), lambda t: t.replace('y', ' Y'), lambda t: '%dm' % (12 * int(t[:-1])), lambda t: t.replace('y', 'year')):
        d = df.copy()
        d['tenor'] = d['tenor'].apply(f)
        alts.append((dict(tenor=list(d['tenor'])), d, dict(settlement_delay=1)))
    for names in (['ATMF', '-1%', '-0.5%', '0.5%', '1%'], ['at the money forward', '-100bp', '-50BPS', '50bps', '+100 bps'], ['a-t-m', '- 100 bps', '-50bps', '+50 bp', '+1%']):
        if names[0] == 'a-t-m':
            names[0] = 'atm'
        alts.append((dict(names=names), df.rename(columns=dict(zip(OFF, names))), dict(settlement_delay=1)))
    alts.append((dict(settlement_date=str(R.settle)), df, dict(settlement_date=ts(R.settle))))
    alts.append((dict(index='dates'), df.set_index(pd.date_range('2020-01-01', periods=n)), dict(settlement_delay=1)))
    alts.append((dict(types='objects'), df.astype(object), dict(settlement_delay=1)))
    alts.append((dict(types='objects', rows='reversed'), df.iloc[::-1].astype(object), dict(settlement_delay=1)))
    for case, d, kw in alts[u['part']::8]:
        rec.state(repr(case))
        rec.step()
        b = d.copy(deep=True)
        ok, x = rec.call('raises', case, build, R, d, **kw)
        if ok:
            s = same(o, x)
            rec.check(s, 'representation', case, lambda: 'another term structure: %r, expected %r' % (x.term_structure.to_dict(), o.term_structure.to_dict()))
            rec.check(d.equals(b), 'mutated', case, lambda: 'the quotes became %r' % d.to_dict())
            rec.outcome(repr(case), s)
            rec.trace()


def do_names(u, rec):
    """every spelling of a quote's distance to the forward, or of its strike: sign, decimals, unit, spaces, capitals"""
    from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names as relative, standardise_absolute_quote_col_names as absolute
    from fractions import Fraction as Q
    bps = [(n, Q(n) / 10000) for n in ('1', '5', '10', '25', '50', '75', '100', '125', '150', '200', '300', '1000', '12.5', '0.5', '2.25')]
    pct = [(n, Q(n) / 100) for n in ('1', '2', '10', '0.5', '0.25', '0.05', '0.01', '0.75', '1.5', '2.25', '3.125', '12.75')]
    spell = [(a + b + n + c + unit, (-1 if a == '-' else 1) * x) for a, b, c in itertools.product(('', '+', '-'), ('', ' '), ('', ' ')) for units, xs in ((('bps', 'bp', 'BPS', 'Bp'), bps), (('%',), pct)) for unit in units for n, x in xs]
    def label(x):
        x *= 10000
        return (str(int(x)) if x.denominator == 1 else repr(float(x))) + 'bps'
    for name, x in spell:
        for extra in ([], ['tenor', 'beta', 'F']):
            case = dict(name=name, extra=extra)
            rec.state(name, len(extra))
            ok, g = rec.call('names_raise', case, relative, extra + ['ATMF', name])
            if ok:
                rec.trace()
                up, off = g
                rec.check(up == {'ATMF': 'atmf', name: label(x)} and off.get('atmf') == 0 and list(off) == ['atmf', label(x)] and abs(off[label(x)] - float(x)) < 1e-12, 'names', case, lambda: '%r, expected %s at %r' % (g, label(x), float(x)))
            if x > 0:
                ok, g = rec.call('names_raise', dict(case, absolute=True), absolute, extra + [name])
                if ok:
                    rec.check(g[0] == {name: label(x)} and list(g[1]) == [label(x)] and abs(g[1][label(x)] - float(x)) < 1e-12, 'names', dict(case, absolute=True), lambda: '%r, expected %s at %r' % (g, label(x), float(x)))
        rec.outcome(label(x))


def do_reject(u, rec):
    R = Ref(u)
    df = quotes(R, {k: v[:2] for k, v in PAR.items()})
    df['beta'] = .5
    o = build(R, df.copy(), settlement_delay=1)

    def refuse(case, f):
        rec.state(repr(case))
        rec.step()
        try:
            f()
            rec.fail('accepted', case, 'no error')
        except (ValueError, AssertionError, KeyError):
            rec.outcome('rejected', repr(case))
    refuse(dict(settlement=None), lambda: build(R, df.copy()))
    refuse(dict(atm='missing'), lambda: build(R, df.drop(columns=['atm']), settlement_delay=1))
    refuse(dict(tenor='missing'), lambda: build(R, df.drop(columns=['tenor']), settlement_delay=1))
    refuse(dict(atm='twice'), lambda: build(R, df.assign(ATMF=.2), settlement_delay=1))
    cal = np.busdaycalendar(weekmask='1111100', holidays=HOL)
    s = BaseSchedule(start_date=ts(R.b[0]), end_date=ts(R.b[-1]), freq=PeriodFreq.SEMIANNUAL, cal=cal)
    s.add_payment_dates()
    n = len(s.df)
    good = [.04] * n, [1] * n
    bad = [(good[0][:-1], good[1]), (good[0], good[1][:-1]), (good[0] + [.04], good[1] + [1]), (.04, good[1]), (good[0], 1), (.04, 0), (.04, 2), ('0.04', 1), (None, 1), (.04, None)] + [(good[0], good[1][:i] + [0] + good[1][i + 1:]) for i in range(n)]
    for K, cp in bad:
        for w in (lambda z: z, lambda z: np.array(z) if isinstance(z, list) else z):
            refuse(dict(K=K, cp=cp, array=w([1]) is not [1]), lambda: o.price_optionlets_per_flat_vol_sln(schedule=s, K=w(K), cp=w(cp), day_count_basis=DayCountBasis.ACT_365, vol_sln_override=.2))
