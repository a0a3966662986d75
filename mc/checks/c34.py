"""C34: densities recovered from a characteristic function are the densities, and truncation ranges have the model's exact mean and variance."""
import itertools, math, warnings
import numpy as np
from scipy import stats, special
from frm.pricing_engine.cosine_method_generic import cos_method, get_cos_truncation_range as trunc

BOUNDS = {
    'quick': '9 distributions with a known density (normal, bimodal, logistic, gamma, normal inverse Gaussian) x 3 step sizes x 3 numbers of terms x every position of the evaluation point on and off the grid (ends included); '
             'characteristic functions of distributions that do not fit into the range; truncation ranges: 5 drifts x 5 expiries x 4 widths x (5 volatilities; 3^5 Heston parameter sets); invalid steps and points',
    'thorough': 'twice the steps, all evaluation points of a fine grid; 4^5 Heston parameter sets'}
ASSUMPTIONS = ['the distribution function is a rectangle rule, first order in the step', 'the drift of the GBM range is that of the log price (Table 11 of the cited paper)', 'series are long enough for the width of the range']


def dists():
    n = stats.norm
    out = []
    for m, s in ((0, 1), (0.03, 0.1), (-2, 0.4)):
        out.append(('normal%g,%g' % (m, s), (lambda u, m=m, s=s: np.exp(1j * u * m - s * s * u * u / 2)), n(m, s).pdf, n(m, s).cdf, m - 9 * s, m + 9 * s, s))
    for w, g in ((0.3, 3), (0.8, 5)):
        out.append(('mix%g' % w, (lambda u, w=w, g=g: w * np.exp(-1j * u * g / 2 - u * u / 2) + (1 - w) * np.exp(1j * u * g - u * u * 0.32)),
                    (lambda x, w=w, g=g: w * n(-g / 2, 1).pdf(x) + (1 - w) * n(g, 0.8).pdf(x)), (lambda x, w=w, g=g: w * n(-g / 2, 1).cdf(x) + (1 - w) * n(g, 0.8).cdf(x)), -g / 2 - 9, g + 9, 0.8))
    out.append(('logistic', lambda u: np.where(u == 0, 1, np.pi * u / np.sinh(np.pi * np.where(u == 0, 1, u))), stats.logistic.pdf, stats.logistic.cdf, -27, 27, 1.))
    for k in (8, 20):
        out.append(('gamma%d' % k, (lambda u, k=k: (1 - 1j * u) ** -float(k)), stats.gamma(k).pdf, stats.gamma(k).cdf, -2., k + 14 * math.sqrt(k), 1.2))
    al, be, de = 4., -1.5, 1.
    g = math.sqrt(al * al - be * be)
    f = stats.norminvgauss(al * de, be * de, 0, de)
    out.append(('nig', lambda u: np.exp(de * (g - np.sqrt(al * al - (be + 1j * u) ** 2))), f.pdf, None, -9., 7., 0.25))
    return out


ND = 9
STEP = {'quick': [0.2, 0.05, 0.013], 'thorough': [0.2, 0.1, 0.05, 0.02, 0.013, 0.004]}


def units(tier):
    return [dict(kind='dens', i=i, N=N, tier=tier) for i in range(ND) for N in (160, 320, 500)] + [dict(kind='bad')] + [dict(kind='gbm')] + [dict(kind='hest', i=i, tier=tier) for i in range(5)]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def do_dens(u, rec):
    name, cf, pdf, cdf, a, b, sc = dists()[u['i']]
    N = u['N']
    for h in STEP[u['tier']]:
        dt = h * sc
        frac = [i / 60 for i in range(61)] if u['tier'] != 'quick' else [0, 1, 0.5, 0.47, 0.53, 0.31, 0.9, 0.123456][:8 if h > 0.1 else 5] if h > 0.02 else [0.47, 0.9]
        ps = [a + f * (b - a) for f in frac] + [a + 17 * dt, float(np.arange(a, b + dt, dt)[3])]
        for p in ps:
            case = dict(dist=name, N=N, dt=dt, p=p, a=a, b=b)
            rec.state(repr(case))
            ok, r = rec.call('raises', case, cos_method, p, cf, dt, a, b, N)
            if not ok:
                continue
            Fp, F, f, tot, x = r
            F, f, x = np.asarray(F), np.asarray(f), np.asarray(x)
            rec.check(len(F) == len(f) == len(x) and np.all(np.diff(x) > 0), 'points', case, lambda: 'points are not increasing or the lengths differ')
            rec.check(abs(x[0] - a) < 1e-12 and x[-1] >= b - 1e-9 * (1 + abs(b)) and x[-1] < b + dt * (1 + 1e-9) + 1e-9, 'range', case, lambda: 'points cover [%r, %r]' % (x[0], x[-1]))
            rec.check(np.max(np.diff(x)) <= dt * (1 + 1e-9), 'gap', case, lambda: 'a step is longer than dt')
            j = np.where(x == p)[0]
            if not rec.check(len(j) == 1, 'p', case, lambda: 'p occurs %d times' % len(j)):
                continue
            inside = x <= b
            want = pdf(x)
            e = np.max(np.abs(f - want)[inside]) * sc
            rec.check(e < 2e-6, 'pdf', case, lambda: 'density is off by %.3g of its scale' % e)
            C = cdf(x) if cdf else np.concatenate([[0], np.cumsum((want[1:] + want[:-1]) / 2 * np.diff(x))])
            top = max(want)
            tol = 1.05 * dt * top + (1e-5 if cdf else 1e-3)
            d = np.max(np.abs(F - C)[inside])
            rec.check(d <= tol, 'cdf', case, lambda: 'distribution function is off by %.3g, more than a step (%.3g)' % (d, tol))
            rec.check(Fp == F[j[0]], 'cdf_p', case, lambda: 'the value at p is %r, in the table %r' % (Fp, F[j[0]]))
            rec.check(abs(tot - 1) <= tol and abs(tot - F[-1]) < tol, 'integral', case, lambda: 'integral %r' % tot)
            rec.outcome(name, h, round(float(Fp), 6))
            rec.trace()


def do_bad(u, rec):
    cf = lambda k: np.exp(-k * k / 2)
    for a, b in ((-1, 1), (-2, 2), (0, 9), (-9, 0), (-9, 2), (3, 9)):
        for dt in (0.01, 0.002):
            case = dict(a=a, b=b, dt=dt)
            rec.state(repr(case))
            # the cosine series of the whole characteristic function folds the outside mass back into the range
            got = None
            try:
                got = cos_method(b, cf, dt, a, b, 400)
                x, f = got[4], got[2]
                want = sum(stats.norm.pdf(x + 2 * k * (b - a)) + stats.norm.pdf(2 * a - x + 2 * k * (b - a)) for k in range(-6, 7))
                rec.check(np.max(np.abs(f - want)) < 1e-6, 'fold', case, lambda: 'density off by %.3g' % np.max(np.abs(f - want)))
            except ValueError:
                rec.outcome('rejected')
    for h in (2.2, 3.3, 5.):
        # a degenerate characteristic function (not one at zero) integrates to less than one
        case = dict(total=1 / h)
        rec.state(repr(case))
        try:
            r = cos_method(0.5, lambda k: np.exp(-k * k / 2) / h, 0.01, -9, 9, 200)
            rec.fail('accepted', case, 'a density integrating to %r is accepted' % r[3])
        except ValueError:
            rec.outcome('rejected')
    for kw in (dict(p=0, dt=0, a=-9, b=9), dict(p=0, dt=-0.1, a=-9, b=9), dict(p=-9.01, dt=0.1, a=-9, b=9), dict(p=9.01, dt=0.1, a=-9, b=9), dict(p=0, dt=0.1, a=0, b=0.05), dict(p=0, dt=0.1, a=1, b=-1)):
        rec.state(repr(kw))
        try:
            cos_method(cf=cf, N=160, **kw)
            rec.fail('accepted', kw, 'invalid arguments accepted')
        except (AssertionError, ValueError):
            rec.outcome('rejected')
    rec.check(cos_method(0.3, cf, 0.01, -9, 9)[0] == cos_method(0.3, cf, 0.01, -9, 9, 160)[0], 'default', {}, 'the default is not 160 terms')


MU, TAU, L = [0.0, 0.05, -0.1, 0.3, 0.001], [1 / 365, 0.25, 1, 5, 30], [1, 8, 10, 24]


def do_gbm(u, rec):
    for mu, tau, l, s in itertools.product(MU, TAU, L, [0.01, 0.1, 0.2, 0.7, 2]):
        case = dict(mu=mu, tau=tau, L=l, vol=s)
        rec.state(repr(case))
        ok, r = rec.call('raises', case, trunc, 'geomentric_brownion_motion', l, (mu, s, tau))
        if ok:
            w = (mu * tau - l * s * math.sqrt(tau), mu * tau + l * s * math.sqrt(tau))
            rec.check(max(abs(x - y) for x, y in zip(r, w)) < 1e-12 * (1 + abs(w[1])), 'gbm', case, lambda: '%r want %r' % (r, w))
            rec.trace()


X, W = np.polynomial.legendre.leggauss(40)


def integ(f, a, b):
    return (b - a) / 2 * np.sum(W * f((b - a) / 2 * X + (a + b) / 2))


def cumulants(tau, mu, v0, eta, kap, th, rho):
    ev = lambda u: th + (v0 - th) * np.exp(-kap * u)
    vv = lambda u: v0 * eta ** 2 / kap * (np.exp(-kap * u) - np.exp(-2 * kap * u)) + th * eta ** 2 / (2 * kap) * (1 - np.exp(-kap * u)) ** 2
    EI = integ(ev, 0, tau)
    A = lambda u: (1 - np.exp(-kap * (tau - u))) / kap      # integral of exp(-kap(s-u)) over s in [u, tau]
    n = 1 if tau <= 5 else 6
    g = [(i * tau / n, (i + 1) * tau / n) for i in range(n)]
    EI = sum(integ(ev, *x) for x in g)
    VI = sum(integ(lambda u: 2 * vv(u) * A(u), *x) for x in g)
    CM = sum(integ(lambda u: rho * eta * ev(u) * A(u), *x) for x in g)
    return mu * tau - EI / 2, EI + VI / 4 - CM


def do_hest(u, rec):
    k = 3 if u['tier'] == 'quick' else 4
    grid = [[0.01, 0.04, 0.25, 0.09], [0.1, 0.5, 1.2, 0.3], [0.5, 2.0, 6.0, 1.0], [0.01, 0.04, 0.3, 0.1], [-0.9, 0.0, 0.5, -0.4]]
    tau = TAU[u['i']]
    for v0, eta, kap, th, rho in itertools.product(*[g[:k] for g in grid]):
        c1, c2 = cumulants(tau, 0., v0, eta, kap, th, rho)
        for mu, l in itertools.product(MU, L):
            case = dict(tau=tau, mu=mu, L=l, var0=v0, vv=eta, kappa=kap, theta=th, rho=rho)
            rec.state(repr(case))
            ok, r = rec.call('raises', case, trunc, 'heston', l, dict(tau=tau, mu=mu, var0=v0, vv=eta, kappa=kap, theta=th, rho=rho, lambda_=0.))
            if not ok:
                continue
            w = (c1 + mu * tau - l * math.sqrt(c2), c1 + mu * tau + l * math.sqrt(c2))
            rec.check(max(abs(x - y) for x, y in zip(r, w)) < 1e-6 * l * math.sqrt(c2), 'heston', case, lambda: '%r want %r' % (r, w))
            rec.trace()
