"""C30: the one factor Hull-White model fits the curve it is given, and prices bond options, optionlets and swaptions without arbitrage, for every curve, parameter, expiry, container and shock sequence."""
import itertools, math, warnings, io, contextlib
import numpy as np, pandas as pd
from scipy.interpolate import splrep, splev
from scipy.stats import norm
import frm.pricing_engine.hw1f as HW
from frm.pricing_engine import HullWhite1Factor
from frm.term_structures import ZeroCurve
from frm.enums import CompoundingFreq, ZeroCurveInterpMethod

IM = dict(cczr=ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR, lndf=ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT)
YEARS = [0.5, 1.0, 2.0, 3.0, 5.0, 7.0, 10.0]
CURVES = dict(flat=[.03] * 7, up=[.01, .012, .02, .025, .03, .033, .035], hump=[.03, .035, .04, .042, .038, .034, .03], neg=[-.007, -.006, -.005, -.003, 0., .002, .004], inv=[.06, .058, .05, .045, .04, .037, .035],
              zero=[0.] * 7, jag=[.02, .03, .025, .035, .03, .036, .032], high=[.12, .118, .115, .11, .1, .09, .085])
BOUNDS = {
    'quick': '6 curves x 2 spline interpolations x 5 mean reversions (0, 1e-9, .03, .2, 1) x 4 volatilities (0 .. 5%); every pair of times of a 7 point grid; every strike of 4, call/put; every subset of the bond option arguments as '
             'vectors; 9 swaps x 4 fixed rates x payer/receiver; every sequence of 4 shocks out of {-1.5, 0, 1} and 3 discretisations of the short rate',
    'thorough': '8 curves x 7 mean reversions x 6 volatilities, 10 point time grid, 9 strikes, 20 swaps x 6 rates, every sequence of 6 shocks'}
ASSUMPTIONS = ['spline curves are interpolated as documented (cubic spline of the pillars, checked on its own by C11)', 'prices are compared to 1e-8, theta-dependent values to 5e-7 (numerical differentiation and integration)',
               'zero rates of the simulation at t=0 are undefined (0/0)']


def alphas(t):
    return [0., 1e-9, .03, .2, 1.] if t == 'quick' else [0., 1e-9, 1e-6, .01, .03, .2, 1.]


def vols(t):
    return [0., .005, .02, .05] if t == 'quick' else [0., .0005, .005, .01, .02, .05]


def grid(t):
    return [0, .25, 1, 1.7, 4, 6.5, 10] if t == 'quick' else [0, .1, .25, .5, 1, 1.7, 3.3, 4, 6.5, 10]


def ctags(t):
    return ['flat', 'up', 'hump', 'neg', 'inv', 'jag'] if t == 'quick' else list(CURVES)


def units(tier):
    out = []
    for (j, c), (h, i) in itertools.product(enumerate(ctags(tier)), enumerate(IM)):
        out += [dict(kind='fit', c=c, i=i, tier=tier), dict(kind='zcbo', c=c, i=i, tier=tier), dict(kind='sim', c=c, i=i, tier=tier)]
        out += [dict(kind='swpt', c=c, i=i, a=a, tier=tier) for k, a in enumerate(alphas(tier)) if tier != 'quick' or (j + h + k) % 2 == 0]
    return out + [dict(kind='vec', mask=m) for m in range(16)] + [dict(kind='reject'), dict(kind='fittheta')]


def warmup():
    curve('flat', 'cczr')


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


class Ref:
    """-ln P(0,t) and its derivatives from the pillars alone."""
    def __init__(self, c, i):
        y, z = YEARS, CURVES[c]
        self.i = i
        self.tck = splrep(y, z, k=3) if i == 'cczr' else splrep([0.] + y, [0.] + [-a * b for a, b in zip(y, z)], k=3)

    def D(self, t, n=0):
        s = [float(splev(t, self.tck, der=k)) for k in range(n + 1)]
        if self.i == 'cczr':
            return t * s[n] + (n * s[n - 1] if n else 0)
        return -s[n]

    def kink(self):
        """Largest jump of the slope of the derivative of the forward rate at a pillar: the numerical derivative is off by up to dt times it."""
        return 1e-4 * max(abs(self.D(y + 1e-9, 3) - self.D(y - 1e-9, 3)) for y in YEARS[:-1])

    def P(self, t):
        return math.exp(-self.D(t))


def curve(c, i):
    return ZeroCurve(curve_date=pd.Timestamp('2024-04-01'), pillar_df=pd.DataFrame({'years': YEARS, 'zero_rate': CURVES[c]}), compounding_freq=CompoundingFreq.CONTINUOUS, interp_method=IM[i])


def B(a, t):
    return t if a < 1e-8 else -math.expm1(-a * t) / a


def V(a, s, t):
    return s * s * t if a < 1e-8 else s * s * -math.expm1(-2 * a * t) / (2 * a)


def theta(ref, a, s, t):
    return ref.D(t, 2) + a * ref.D(t, 1) + V(a, s, t)


def zcbo(ref, a, s, T, S, K, cp):
    if S < T:
        return 0.
    p, q = ref.P(S), K * ref.P(T)
    sp = math.sqrt(V(a, s, T)) * B(a, S - T)
    if sp <= 0:
        return max(cp * (p - q), 0.)
    h = math.log(p / q) / sp + sp / 2
    return cp * (p * norm.cdf(cp * h) - q * norm.cdf(cp * (h - sp)))


def close(x, y, tol):
    return x == x and abs(x - y) <= tol


def one(x):
    x = np.asarray(x, float)
    return float(x.reshape(-1)[0]) if x.size == 1 else math.nan


def do_fit(u, rec):
    t, ref, z = u['tier'], Ref(u['c'], u['i']), curve(u['c'], u['i'])
    for a, s in itertools.product(alphas(t), [0., .02] if t == 'quick' else vols(t)):
        base = dict(c=u['c'], i=u['i'], a=a, s=s)
        ok, m = rec.call('raises', base, HullWhite1Factor, zero_curve=z, mean_rev_lvl=a, vol=s)
        if not ok:
            continue
        rec.check(close(m.r0, ref.D(1e-9, 1), 1e-6), 'r0', base, lambda: 'short rate %r, the curve starts at %r' % (m.r0, ref.D(1e-9, 1)))
        ok, _ = rec.call('raises', base, m.setup_theta)
        if not ok:
            continue
        g = np.array(grid(t)[:-1] + [9.5])
        ok, th = rec.call('raises', base, m.get_thetas, g)
        for x, y in zip(g, th if ok else []):
            rec.check(close(y, theta(ref, a, s, x), 2e-6 + ref.kink()), 'theta', dict(base, t=x), lambda: '%r, expected %r' % (y, theta(ref, a, s, x)))
        for t1, t2 in itertools.combinations(grid(t), 2):
            for r in ([None] if t1 == 0 else [.01] if t == 'quick' and a != .03 else [-.02, .01, .08]):
                case = dict(base, t1=t1, t2=t2, r=r)
                rec.state(repr(case))
                r_ = ref.D(1e-9, 1) if r is None else r
                b = B(a, t2 - t1)
                e = ref.P(t2) / ref.P(t1) * math.exp(b * (ref.D(t1, 1) if t1 else r_) - .5 * V(a, s, t1) * b * b - b * r_)
                for f in (m.calc_discount_factor_by_solving_ode_1, m.calc_discount_factor_by_solving_ode_2):
                    rec.step()
                    ok, x = rec.call('raises', case, f, t1, t2, r)
                    if ok:
                        rec.check(close(one(x), e, 5e-7 * max(1, t2)), 'bond', dict(case, f=f.__name__), lambda: '%r, expected %r' % (x, e))
                rec.outcome(round(e, 10))
                if r is None or s:
                    ok, x = rec.call('raises', case, m.get_forward_rate_by_integration, t1, t2)
                    rec.check(ok and close(one(x), ref.D(t2) - ref.D(t1), 1e-7 * max(1, t2)), 'forward_integral', case, lambda: '%r, expected %r' % (x, ref.D(t2) - ref.D(t1)))
        if a > 0.1 or s == .02:
            ok, x = rec.call('raises', base, m.calc_error_for_theta_fit)
            rec.check(ok and 0 <= x < .02, 'fit_error', base, lambda: 'average error of the fit is %r bps' % x)


def do_zcbo(u, rec):
    t, ref, z = u['tier'], Ref(u['c'], u['i']), curve(u['c'], u['i'])
    ks = [.8, .97, 1, 1.03] if t == 'quick' else [.5, .8, .97, .999, 1, 1.001, 1.03, 1.3, 2]
    for a, s in ([(0., .02), (.03, .02), (1., .05), (.03, 0.), (.2, .05)] if t == 'quick' else itertools.product(alphas(t), vols(t))):
        base = dict(c=u['c'], i=u['i'], a=a, s=s)
        ok, m = rec.call('raises', base, HullWhite1Factor, zero_curve=z, mean_rev_lvl=a, vol=s)
        for T, S in itertools.product(grid(t), repeat=2):
            F = ref.P(S) / ref.P(T)
            for k in ks:
                K = k * F
                px = {}
                for cp in (1, -1):
                    case = dict(base, T=T, S=S, K=K, cp=cp)
                    rec.state(repr(case))
                    rec.step()
                    ok, x = rec.call('raises', case, m.price_zero_coupon_bond_option, expiry_years=T, maturity_years=S, K=K, cp=cp)
                    if ok:
                        px[cp] = one(x)
                        e = zcbo(ref, a, s, T, S, K, cp)
                        rec.check(close(px[cp], e, 1e-9), 'zcbo', case, lambda: '%r, expected %r' % (x, e))
                        rec.outcome(round(e, 9))
                if len(px) == 2 and S >= T:
                    rec.check(close(px[1] - px[-1], ref.P(S) - K * ref.P(T), 1e-9), 'parity', dict(base, T=T, S=S, K=K), lambda: 'call - put = %r' % (px[1] - px[-1]))
                if S <= T:
                    continue
                y = S - T
                f = (1 / F - 1) / y
                R = f + (k - 1) * .05
                px = {}
                for cp in (1, -1):
                    case = dict(base, start=T, end=S, rate=R, cp=cp)
                    rec.state(repr(case))
                    rec.step()
                    ok, x = rec.call('raises', case, m.price_optionlet, T, S, R, cp)
                    if ok:
                        px[cp] = one(x)
                        e = (1 + R * y) * zcbo(ref, a, s, T, S, 1 / (1 + R * y), -cp)
                        rec.check(close(px[cp], e, 1e-9), 'optionlet', case, lambda: '%r, expected %r' % (x, e))
                if len(px) == 2:
                    rec.check(close(px[1] - px[-1], ref.P(T) - (1 + R * y) * ref.P(S), 1e-9), 'optionlet_parity', dict(base, start=T, end=S, rate=R), lambda: 'caplet - floorlet = %r' % (px[1] - px[-1]))


def swaps(t):
    out = []
    for T0 in ([.25, 1, 4] if t == 'quick' else [.1, .25, 1, 4, 6]):
        out += [(T0, [T0 + 1], [1.], T0 + 1), (T0, [T0 + .5, T0 + 1, T0 + 1.5], [.5, .51, .49], T0 + 1.5), (T0, [T0 + .7, T0 + 2, T0 + 3.5, T0 + 4], [.7, 1.3, 1.5, .5], T0 + 3.98)]
        out += [(T0, [T0 + 1, T0 + 2], [1., 1.], T0 + 2.1)]
        if t != 'quick':
            out += [(T0, [T0 + 1, T0 + 2], [1., 1.], T0 + 2.02), (T0, [T0 + 1, T0 + 2], [1., 1.], T0 + 1.6)]
    return out


GL = np.polynomial.legendre.leggauss(80)


def swaption(ref, a, s, T0, T, tau, Tn, c, payer):
    """P(0,T0) E[(+-(1 - sum c tau P(T0,Ti) - P(T0,Tn)))+] under the T0 forward measure, by quadrature on the exercised side."""
    flows = [(x, c * y) for x, y in zip(T, tau)] + [(Tn, 1.)]
    sd = math.sqrt(V(a, s, T0))
    w = 1. if payer else -1.
    pr = [(q * ref.P(x), sd * B(a, x - T0)) for x, q in flows]

    def pay(zz):
        return w * (ref.P(T0) - sum(p * np.exp(-v * zz - v * v / 2) for p, v in pr))
    if sd == 0:
        return max(float(pay(0.)), 0.)
    lo, hi = -12., 12.
    g = lambda q: float(pay(q))
    if g(lo) * g(hi) > 0:
        a_, b_ = (lo, hi) if g(0) > 0 else (0, 0)
    else:
        l, h = lo, hi
        for _ in range(200):
            mid = (l + h) / 2
            l, h = (mid, h) if g(l) * g(mid) > 0 else (l, mid)
        a_, b_ = (l, hi) if g(hi) > 0 else (lo, l)
    if a_ == b_:
        return 0.
    tot = 0.
    edges = np.linspace(a_, b_, 9)
    for x, y in zip(edges[:-1], edges[1:]):
        q = (y - x) / 2 * GL[0] + (x + y) / 2
        tot += (y - x) / 2 * float(np.sum(GL[1] * pay(q) * np.exp(-q * q / 2))) / math.sqrt(2 * math.pi)
    return tot


def do_swpt(u, rec):
    t, ref, z = u['tier'], Ref(u['c'], u['i']), curve(u['c'], u['i'])
    for s in vols(t)[0:1] + vols(t)[2:3] + ([] if t == 'quick' else vols(t)[4:]):
        a = u['a']
        base = dict(c=u['c'], i=u['i'], a=a, s=s)
        ok, m = rec.call('raises', base, HullWhite1Factor, zero_curve=z, mean_rev_lvl=a, vol=s)
        m.setup_theta(num=100)
        for j, (T0, T, tau, Tn) in enumerate(swaps(t)):
            if t == 'quick' and (j + len(u['c'])) % 3 == 0 and s == 0:
                continue
            fair = (ref.P(T0) - ref.P(Tn)) / sum(y * ref.P(x) for x, y in zip(T, tau))
            for c in ([fair, fair + .01, fair - .02] if t == 'quick' else [fair, fair + .002, fair + .01, fair - .005, fair - .02, 0.]):
                px = {}
                for payer in (True, False):
                    case = dict(base, T0=T0, T=T, Tn=Tn, rate=c, payer=payer)
                    rec.state(repr(case))
                    rec.step()
                    if t == 'quick' and c != fair and (j + payer) % 2:
                        continue
                    ok, x = rec.call('raises', case, m.price_swaption, T0, np.array(T), np.array(tau), Tn, c, is_payer=payer, notional=100.)
                    if ok:
                        e = 100 * swaption(ref, a, s, T0, T, tau, Tn, c, payer)
                        px[payer] = one(x)
                        rec.check(close(px[payer], e, 5e-5), 'swaption', case, lambda: '%r, expected %r' % (x, e))
                        rec.outcome(round(e, 6))
                        if len(T) == 1 and T[0] == Tn and abs(T[0] - T0 - tau[0]) < 1e-12:
                            ok, y = rec.call('raises', case, m.price_optionlet, T0, Tn, c, 1 if payer else -1)
                            rec.check(ok and close(one(y) * 100, px[payer], 5e-5), 'one_period', case, lambda: 'the optionlet is worth %r, the swaption %r' % (y * 100, px[payer]))
                if len(px) == 2:
                    e = 100 * (ref.P(T0) - ref.P(Tn) - c * sum(y * ref.P(x) for x, y in zip(T, tau)))
                    rec.check(close(px[True] - px[False], e, 5e-5), 'payer_receiver', dict(base, T0=T0, T=T, Tn=Tn, rate=c), lambda: 'payer - receiver = %r, the swap is worth %r' % (px[True] - px[False], e))


def do_vec(u, rec):
    ref, z = Ref('up', 'cczr'), curve('up', 'cczr')
    for a, s in ((0., .02), (.03, .02), (.2, 0.)):
        m = HullWhite1Factor(zero_curve=z, mean_rev_lvl=a, vol=s)
        cols = [[1., 2.5, 0., 4.], [5., 4., 6., 4.], [.9, .95, .7, 1.], [1, -1, 1, -1]]
        for n, wrap in itertools.product((1, 2, 3, 4), (np.array, list)):
            vec = [wrap(col[:n]) if u['mask'] >> k & 1 else col[0] for k, col in enumerate(cols)]
            case = dict(a=a, s=s, n=n, args=vec)
            rec.state(repr(case))
            rec.step()
            ok, x = rec.call('raises', case, m.price_zero_coupon_bond_option, *vec)
            if not ok:
                continue
            k = n if u['mask'] else 1
            e = [zcbo(ref, a, s, *[(col[j] if u['mask'] >> q & 1 else col[0]) for q, col in enumerate(cols)]) for j in range(k)]
            x = np.asarray(x, float).reshape(-1)
            rec.check(len(x) == k and np.allclose(x, e, atol=1e-10), 'vector', case, lambda: '%r, expected %r' % (x.tolist(), e))
            if wrap is np.array:
                w = [np.array(col[:n]) if u['mask'] >> q & 1 else col[0] for q, col in enumerate(([.5, 2., 0., 4.], [5., 4., 6., 7.], [.03, .01, .05, 0.], [1, -1, 1, -1]))]
                case = dict(case, args=w)
                ok, x = rec.call('raises', case, m.price_optionlet, *w)
                if ok:
                    bw = np.broadcast_arrays(*[np.atleast_1d(q) for q in w])
                    e = [(1 + R * (S - T)) * zcbo(ref, a, s, T, S, 1 / (1 + R * (S - T)), -c) for T, S, R, c in zip(*bw)]
                    x = np.asarray(x, float).reshape(-1)
                    rec.check(len(x) == k and np.allclose(x, e, atol=1e-10), 'vector_optionlet', case, lambda: '%r, expected %r' % (x.tolist(), e))


def do_reject(u, rec):
    m = HullWhite1Factor(zero_curve=curve('up', 'cczr'), mean_rev_lvl=.03, vol=.01)
    m.setup_theta(num=50)
    T = [2., 3., 4., 5.]
    tau = [1.] * 4
    bad = [(1., T, tau[:k], 5.) for k in range(4)] + [(1., T[:k] + [T[k + 1], T[k]] + T[k + 2:], tau, 5.) for k in range(3)] + [(1., T[:k] + [T[k]] + T[k:], tau + [1.], 5.) for k in range(4)] + [(1., T, tau, x) for x in (3.99, 3., 2., 1.5)]
    for b in bad:
        case = dict(T0=b[0], T=b[1], tau=b[2], Tn=b[3])
        rec.state(repr(case))
        rec.step()
        try:
            x = m.price_swaption(b[0], np.array(b[1]), np.array(b[2]), b[3], .03)
            rec.fail('accepted', case, 'gives %r' % x)
        except (ValueError, AssertionError):
            rec.outcome('rejected')
    for f in (m.calc_discount_factor_by_solving_ode_1, m.calc_discount_factor_by_solving_ode_2):
        for args in ((2., 1., .02), (1., 1., .02), (1., 2., None), (2., 1., None), (0, 0, None)):
            case = dict(f=f.__name__, args=args)
            rec.state(repr(case))
            rec.step()
            try:
                x = f(*args)
                rec.fail('accepted', case, 'gives %r' % x)
            except (ValueError, AssertionError):
                rec.outcome('rejected')
    for args in (([1, 2], [3, 4, 5], .9, 1), ([1, 2], 5, [.8, .9, 1.], 1), (1, [3, 4], .9, [1, -1, 1])):
        case = dict(args=args)
        rec.step()
        try:
            x = m.price_zero_coupon_bond_option(*args)
            rec.fail('accepted', case, 'gives %r' % x)
        except (ValueError, AssertionError):
            rec.outcome('rejected')
    for meth in ('milstein', '', None, 'Exakt'):
        rec.step()
        try:
            x = m.simulate(1., 4, 2, method=meth, random_seed=0)
            rec.fail('accepted', dict(method=meth), 'simulates %r' % x['R'][1])
        except (ValueError, AssertionError):
            rec.outcome('rejected')


def do_fittheta(u, rec):
    for c, i in itertools.product(('up', 'jag'), IM):
        m = HullWhite1Factor(zero_curve=curve(c, i), mean_rev_lvl=.03, vol=.02)
        err = {}
        dts, nums = (1e-2, 1e-4), (5, 60)
        for d, n in itertools.product(dts, nums):
            q = HullWhite1Factor(zero_curve=curve(c, i), mean_rev_lvl=.03, vol=.02, dt=d, num=n)
            q.setup_theta()
            err[d, n] = q.calc_error_for_theta_fit()
        best = min(err.values())
        for o in itertools.permutations(dts):
            for p in itertools.permutations(nums):
                case = dict(c=c, i=i, dts=o, nums=p)
                rec.state(repr(case))
                rec.step()
                ok, _ = rec.call('raises', case, m.fit_theta, dts=o, nums=p)
                if ok:
                    x = m.calc_error_for_theta_fit()
                    rec.check(abs(err.get((m.dt, m.num), 9) - best) < 1e-9 and abs(x - best) < 1e-9, 'best', case, lambda: 'dt %r num %r error %r, the best is %r' % (m.dt, m.num, x, best))
                    rec.outcome(m.dt, m.num)


def do_sim(u, rec):
    t, ref, z = u['tier'], Ref(u['c'], u['i']), curve(u['c'], u['i'])
    n = 4 if t == 'quick' else 6
    seqs = np.array(list(itertools.product([-1.5, 0., 1.], repeat=n))).T
    orig = HW.generate_rand_nbs
    got = {}

    def stub(nb_steps, nb_rand_vars=1, nb_simulations=0, apply_antithetic_variates=False, random_seed=0):
        got.update(steps=nb_steps, sims=nb_simulations, anti=apply_antithetic_variates, seed=random_seed)
        return seqs.reshape(n, 1, -1).copy()
    for a, s, tau in itertools.product(alphas(t), vols(t), (.4, 2.)):
        m = HullWhite1Factor(zero_curve=z, mean_rev_lvl=a, vol=s)
        d = tau / n
        th = [theta(ref, a, s, k * d) for k in range(n + 1)]
        for meth in ('euler', 'rk4', 'exact'):
            case = dict(c=u['c'], i=u['i'], a=a, s=s, tau=tau, method=meth)
            HW.generate_rand_nbs = stub
            try:
                ok, x = rec.call('raises', case, m.simulate, tau, n, seqs.shape[1], False, 7, meth)
            finally:
                HW.generate_rand_nbs = orig
            if not ok:
                continue
            rec.check(got == dict(steps=n, sims=seqs.shape[1], anti=False, seed=7), 'request', case, lambda: 'asked for %r' % got)
            R = np.empty((n + 1, seqs.shape[1]))
            R[0] = ref.D(1e-9, 1)
            tol = 1e-6 + tau * ref.kink()
            for k in range(n):
                if meth == 'euler':
                    R[k + 1] = R[k] + (th[k] - a * R[k]) * d + s * math.sqrt(d) * seqs[k]
                elif meth == 'rk4':
                    # the classical RK4 step of dr = (theta - a r) dt is the 4th order Taylor polynomial of the exponential
                    q = -a * d
                    R[k + 1] = R[k] * (1 + q + q ** 2 / 2 + q ** 3 / 6 + q ** 4 / 24) + th[k] * d * (1 + q / 2 + q ** 2 / 6 + q ** 3 / 24) + s * math.sqrt(d) * seqs[k]
                else:
                    # E and Var of r(t+d) given r(t); theta between grid points may be interpolated: |error| <= d^3/8 max|theta''|
                    g = lambda y: ref.D(y, 1) + .5 * s * s * B(a, y) ** 2
                    R[k + 1] = g((k + 1) * d) + (R[k] - g(k * d)) * math.exp(-a * d) + math.sqrt(V(a, s, d)) * seqs[k]
            if meth == 'exact':
                fine = np.array([theta(ref, a, s, y) for y in np.linspace(0, tau, 8 * n + 1)])
                lin = np.interp(np.linspace(0, tau, 8 * n + 1), np.arange(n + 1) * d, th)
                tol += 1.5 * tau * float(np.max(np.abs(fine - lin)))
            rec.state(repr(case))
            rec.bulk_states += seqs.shape[1]
            rec.step(n * seqs.shape[1])
            rec.trace(seqs.shape[1])
            ok = x['R'].shape == R.shape and np.max(np.abs(x['R'] - R)) <= tol
            rec.check(ok, 'path', case, lambda: 'path %r, expected %r' % (x['R'][:, -1].tolist(), R[:, -1].tolist()))
            I = np.vstack([np.zeros(R.shape[1]), np.cumsum((x['R'][1:] + x['R'][:-1]) / 2 * d, axis=0)])
            rec.check(np.allclose(x['years_grid'], np.arange(n + 1) * d, atol=1e-12), 'years', case, lambda: '%r' % x['years_grid'])
            rec.check(np.allclose(x['sim_dsc_factor'], np.exp(-I), atol=1e-12), 'discount', case, lambda: '%r, expected %r' % (x['sim_dsc_factor'][:, -1].tolist(), np.exp(-I)[:, -1].tolist()))
            y = (np.arange(1, n + 1) * d)[:, None]
            rec.check(np.allclose(x['sim_cczr'][1:], I[1:] / y, atol=1e-12), 'zero_rate', case, lambda: '%r' % x['sim_cczr'][1:, -1].tolist())
            av = x['averages_df']
            ad = np.exp(-I).mean(axis=1)
            rec.check(np.allclose(av['discount_factor'], ad, atol=1e-12) and np.allclose(av['cczr'][1:], -np.log(ad[1:]) / y[:, 0], atol=1e-12) and np.allclose(av['years'], np.arange(n + 1) * d), 'averages', case, lambda: '%r' % av.to_dict())
            rec.outcome(meth, round(float(R[-1, 0]), 9))
        # the real random numbers: the same seed gives the same paths, antithetic paths are mirror images in pairs
        case = dict(c=u['c'], i=u['i'], a=a, s=s, tau=tau, seeds=True)
        for nb in (2, 5, 6):
            ok, x = rec.call('raises', case, m.simulate, tau, n, nb, True, 3, 'euler')
            ok2, y = rec.call('raises', case, m.simulate, tau, n, nb, True, 3, 'euler')
            if ok and ok2:
                R = x['R']
                rec.step()
                rec.check(R.shape == (n + 1, nb) and np.allclose(R, y['R'], rtol=1e-12, atol=1e-14), 'reproducible', dict(case, nb=nb), lambda: 'shape %r' % (R.shape,))
                det = np.empty(n + 1)
                det[0] = ref.D(1e-9, 1)
                for k in range(n):
                    det[k + 1] = det[k] + (th[k] - a * det[k]) * d
                if nb % 2 == 0:
                    rec.check(np.allclose(R.mean(axis=1), det, atol=1e-6 + tau * ref.kink()), 'antithetic', dict(case, nb=nb), lambda: 'mean path %r, expected %r' % (R.mean(axis=1).tolist(), det.tolist()))
