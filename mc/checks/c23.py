"""C23: SABR smiles equal Hagan's expansion for every parameter and strike, alpha reprices the at-the-money volatility, a fit recovers the smile it was generated from."""
import itertools, math
import numpy as np
from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params as vol, solve_alpha_from_sln_vol as solve_alpha, fit_sabr_params_to_sln_smile as fit

BOUNDS = {
    'quick': 'smile: 4 (forward, shift) x 5 expiries (incl. 0) x 3 at-the-money vols x 4 betas x 5 rhos x 3 volvols x 17 strikes (exactly, 1e-7, 2e-6 and 1e-5 around the money to 5 deviations); alpha of each; '
             'every legal subset of parameters as vectors; fits of generated smiles: 3 forwards x 3 expiries x 2 vols x 3 betas x 3 rhos x 2 volvols x {beta free, fixed}, 5 and 7 strikes in every rotation order; misuse',
    'thorough': '5 (forward, shift), 8 expiries, 5 vols, 6 betas, 9 rhos, 6 volvols; fits at 6 expiries'}
ASSUMPTIONS = ['volvol > 0 (documented domain)', 'fits: volvol^2 x expiry <= 1 and atm vol^2 x expiry <= 0.5, where the expansion is meant to be used; precision demanded 50bp of volatility when beta is free, 1bp with beta fixed']
FWD = [(0.03, 0.0), (1.2, 0.0), (-0.002, 0.02), (0.004, 0.01), (95.0, 0.0)]


def grids(tier):
    if tier == 'quick':
        return FWD[:4], [0.0, 1 / 365, 0.5, 2, 10], [0.08, 0.3, 0.8], [0.0, 0.3, 0.5, 1.0], [-0.95, -0.4, 0.0, 0.3, 0.9], [0.01, 0.4, 1.2]
    return FWD, [0.0, 1 / 365, 0.1, 0.5, 1, 2, 5, 10], [0.02, 0.08, 0.2, 0.3, 0.8], [0.0, 0.1, 0.3, 0.5, 0.8, 1.0], [-0.95, -0.7, -0.4, -0.1, 0.0, 0.1, 0.3, 0.6, 0.9], [0.01, 0.1, 0.4, 0.8, 1.2, 2.0]


def units(tier):
    fw, T, V, B, R, NU = grids(tier)
    u = [dict(kind='smile', fwd=list(f), tau=t, tier=tier) for f in fw for t in T]
    u += [dict(kind='fit', F=F, shift=sh, tau=t, fix=fx, tier=tier) for F, sh in ((0.03, 0.0), (1.2, 0.0), (-0.002, 0.02)) for t in ((0.25, 2, 10) if tier == 'quick' else (0.25, 0.5, 1, 2, 5, 10)) for fx in (True, False)]
    return u + [dict(kind='vec', tier=tier), dict(kind='reject', tier=tier)]


def hagan(t, F, a, b, r, v, K, sh):
    f, k = F + sh, K + sh
    L = math.log(f / k)
    g = (f * k) ** ((1 - b) / 2)
    t1 = (1 - b) ** 2 * a * a / (24 * g * g) + r * b * v * a / (4 * g) + (2 - 3 * r * r) * v * v / 24
    z = v / a * g * L
    if abs(z) < 1e-5:
        zx = 1 - r * z / 2 + (2 - 3 * r * r) * z * z / 12
    else:
        zx = z / math.log((math.sqrt(1 - 2 * r * z + z * z) + z - r) / (1 - r))
    return a / (g * (1 + (1 - b) ** 2 / 24 * L * L + (1 - b) ** 4 / 1920 * L ** 4)) * zx * (1 + t1 * t)


def coeffs(t, f, b, r, v, atm):
    g = f ** (1 - b)
    return [(1 - b) ** 2 * t / 24 / g ** 2, r * b * v * t / 4 / g, 1 + (2 - 3 * r * r) * v * v * t / 24, -atm * g], g


def min_positive(c, g):
    """smallest positive root of the cubic by a fine scan in units of the first guess"""
    p = lambda x: ((c[0] * x + c[1]) * x + c[2]) * x + c[3]
    step = -c[3] / 50
    x = 0.0
    for i in range(5000):
        if p(x) <= 0 <= p(x + step):
            lo, hi = x, x + step
            for _ in range(100):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if p(m) < 0 else (lo, m)
            return hi
        x += step
    return None


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def do_smile(u, rec):
    _, _, V, B, R, NU = grids(u['tier'])
    (F, sh), t = u['fwd'], u['tau']
    f = F + sh
    for atm, b, r, v in itertools.product(V, B, R, NU):
        case = dict(F=F, shift=sh, tau=t, atm=atm, beta=b, rho=r, volvol=v)
        rec.state(repr(case))
        c, g = coeffs(t, f, b, r, v, atm)
        want = min_positive(c, g)
        rec.step()
        if want is None:
            try:
                a = float(solve_alpha(tau=t, F=F, beta=b, rho=r, volvol=v, vol_sln_atm=atm, ln_shift=sh))
            except Exception:
                rec.outcome('no alpha')
                a = None
            rec.check(a is None or not a > 0 or abs(hagan(t, F, a, b, r, v, F, sh) - atm) < 1e-6 * atm, 'alpha_invented', case, lambda: 'alpha %r does not give the volatility' % a)
        else:
            ok, a = rec.call('raises_alpha', case, solve_alpha, tau=t, F=F, beta=b, rho=r, volvol=v, vol_sln_atm=atm, ln_shift=sh)
            if ok:
                rec.trace()
                w = hagan(t, F, a, b, r, v, F, sh) if a > 0 else float('nan')
                # with a negative slope at zero (extreme volvol^2 x expiry) any real root may be nearest: only then a is allowed to be another positive root
                rec.check(abs(w - atm) <= 1e-8 * atm, 'alpha_atm', case, lambda: 'alpha %r gives %r' % (a, w))
                q = np.roots(c if c[0] else c[1:] if c[1] else c[2:])
                q = sorted(float(x.real) for x in np.atleast_1d(q) if abs(x.imag) < 1e-12 * abs(x) and x.real > 0)
                if len(q) > 1 and min(y / x for x, y in zip(q, q[1:])) > 1.001:
                    d = sorted(abs(x - atm * g) for x in q)
                    if d[1] > d[0] * 1.001 + 1e-9:
                        rec.outcome('several roots')
                        rec.check(abs(abs(a - atm * g) - d[0]) <= 1e-7 * a, 'alpha_branch', case, lambda: 'alpha %r, the roots are %r and the leading order is %r' % (a, q, atm * g))
        a = atm * g
        s = min(atm * math.sqrt(t) if t else 0.1, 0.8)
        ks = [0.0] + [x for e in (1e-7, 2e-6, 1e-5) for x in (e, -e)] + [x * s for x in (-5, -2, -1, -0.5, -0.1, 0.1, 0.5, 1, 2, 5)]
        for x in ks:
            K = f * math.exp(x) - sh
            c2 = dict(case, alpha=a, lnKF=x)
            rec.state(repr(c2))
            ok, y = rec.call('raises', c2, vol, tau=t, F=F, alpha=a, beta=b, rho=r, volvol=v, K=K, ln_shift=sh)
            if not ok:
                continue
            w = hagan(t, F, a, b, r, v, K, sh)
            rec.trace()
            rec.outcome(round(w, 9))
            tol = 1e-9 * abs(w) if abs(x) > 0.05 else 1e-7 * abs(w) if abs(x) > 0.9e-5 else 3e-6 * abs(w) * max(1, v / atm)
            rec.check(np.ndim(y) == 0 and abs(y - w) <= tol, 'smile', c2, lambda: '%r want %r' % (y, w))


def do_vec(u, rec):
    A = dict(tau=[0.5, 2.0, 7.0], F=[0.03, 0.025, 0.04], alpha=[0.05, 0.08, 0.06], beta=[0.5, 0.7, 1.0], rho=[-0.3, 0.0, 0.5], volvol=[0.4, 0.2, 0.3])
    Ks = {'one': 0.035, 'atm': 0.03, 'vec': np.array([0.03, 0.02, 0.05]), 'vecatm': np.array([0.03, 0.025, 0.04])}
    for vecp in (False, True):
        for (name, K), sh in itertools.product(Ks.items(), (0.0, 0.01)):
            for forms in ('array', 'size1'):
                d = {k: np.array(x) if vecp else (x[0] if forms == 'array' else np.array([x[0]])) for k, x in A.items()}
                case = dict(vector_params=vecp, K=name, shift=sh, form=forms)
                rec.state(repr(case))
                keep = {k: np.array(x, copy=True) for k, x in d.items()}
                k0 = np.array(K, copy=True)
                ok, y = rec.call('raises', case, vol, K=K, ln_shift=sh, **d)
                if not ok:
                    continue
                rec.trace()
                n = 3 if vecp or np.ndim(K) else 1
                w = [hagan(*(A[k][i if vecp else 0] for k in ('tau', 'F', 'alpha', 'beta', 'rho', 'volvol')), K[i] if np.ndim(K) else K, sh) for i in range(n)]
                rec.check(np.size(y) == n and np.allclose(np.ravel(y), w, rtol=1e-9, atol=0), 'vector', case, lambda: '%r want %r' % (y, w))
                rec.check(np.array_equal(k0, K) and all(np.array_equal(keep[k], d[k]) for k in d), 'mutated', case, 'arguments modified')


def do_fit(u, rec):
    F, sh, t = u['F'], u['shift'], u['tau']
    f = F + sh
    for atm, b, r, v, nk in itertools.product((0.1, 0.3), (0.0, 0.5, 1.0), (-0.6, 0.0, 0.4) + ((-0.96, 0.95) if u['fix'] else ()), (0.2, 0.6), (5, 7)):
        if v * v * t > 1 or atm * atm * t > 0.5 or abs(r) > .9 and (v > .3 or b == 0 or nk == 7):
            continue
        c, g = coeffs(t, f, b, r, v, atm)
        a = min_positive(c, g)
        if a is None:
            continue
        s = atm * math.sqrt(t)
        xs = [-1.2, -0.6, 0.0, 0.6, 1.2] if nk == 5 else [-1.5, -1, -0.5, 0.0, 0.5, 1, 1.5]
        rot = (r > 0) + 2 * (b > 0)
        xs = xs[rot:] + xs[:rot]
        K = np.array([f * math.exp(x * s) - sh for x in xs])
        vols = np.array([hagan(t, F, a, b, r, v, k, sh) for k in K])
        if not (vols > 0.01).all():
            continue
        case = dict(F=F, shift=sh, tau=t, atm=atm, beta=b, rho=r, volvol=v, strikes=nk, beta_fixed=u['fix'])
        rec.state(repr(case))
        kw = dict(beta_overide=b) if u['fix'] else {}
        if sh:
            kw['ln_shift'] = sh
        k0, v0 = K.copy(), vols.copy()
        ok, out = rec.call('raises_fit', case, fit, tau=t, F=F, K=K, vols_sln=vols, **kw)
        if not ok:
            continue
        rec.trace()
        (fa, fb, fr, fv), _ = out
        rec.check(np.array_equal(k0, K) and np.array_equal(v0, vols), 'mutated', case, 'arguments modified')
        rec.check(fa > 0 and 0 <= fb <= 1 and abs(fr) < 1 and fv > 0 and (not u['fix'] or fb == b), 'domain', case, lambda: repr(out[0]))
        at = hagan(t, F, fa, fb, fr, fv, F, sh)
        rec.check(abs(at - atm) <= 1e-8, 'fit_atm', case, lambda: 'at the money %r want %r' % (at, atm))
        e = max(abs(hagan(t, F, fa, fb, fr, fv, k, sh) - x) for k, x in zip(K, vols))
        rec.outcome(round(e, 4))
        rec.check(e <= (1e-4 if u['fix'] else 5e-3), 'fit_smile', case, lambda: 'largest error %.2g, fitted %r' % (e, out[0]))


def do_reject(u, rec):
    good = dict(tau=1.0, F=0.03, alpha=0.05, beta=0.5, rho=0.1, volvol=0.3, K=0.03, ln_shift=0.0)
    v2 = np.array([1.0, 2.0])
    for bad in (dict(tau=v2), dict(F=v2), dict(alpha=v2), dict(rho=v2), dict(volvol=v2), dict(beta=v2), dict(tau=v2, F=v2, alpha=v2, beta=v2, rho=v2, volvol=v2, K=np.array([.1, .2, .3])), dict(ln_shift=v2)):
        rec.step()
        rec.state(repr(bad))
        try:
            vol(**dict(good, **bad))
            rec.fail('bad_input', dict(bad=list(bad)), 'accepted')
        except Exception:
            rec.outcome('rejected')
    for K in ([0.02, 0.025, 0.035], [0.03, 0.03, 0.04], [0.03 * 1.01, 0.02]):
        rec.step()
        rec.state(repr(K))
        try:
            fit(tau=1.0, F=0.03, K=np.array(K), vols_sln=np.full(len(K), 0.2), ln_shift=0.0, beta_overide=0.5)
            rec.fail('no_atm', dict(K=K), 'fitted without a unique at-the-money quote')
        except Exception:
            rec.outcome('rejected')
