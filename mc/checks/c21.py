"""C21: Garman-Kohlhagen prices, splits, greeks and implied vols equal their definitions for every parameter, vector form and forward convention."""
import itertools, math
import numpy as np
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price, garman_kohlhagen_solve_implied_vol
from mc.ref.options import N, n

BOUNDS = {
    'quick': '2 spots x 4 rate pairs (incl. negative, equal) x {no forward, parity forward, off-parity forwards} x 9 strikes x 7 expiries (incl. 0 and an hour) x 4 vols x call/put: price, value split, parity, 6 analytical and 6 numerical '
             'greeks; implied vol of every such price from 3 guesses, unattainable prices; implied vol at 21 strikes within 5 standard deviations x 4 expiries x 8 vols (0.5%..180%) x 10 guesses; every legal subset of parameters as vectors',
    'thorough': '21 strikes, 11 expiries, 8 vols, 6 rate pairs'}
ASSUMPTIONS = ['greeks only for positive expiry (numerical theta: more than 5 days; numerical vega: vol above 2%)', 'implied vol accuracy 1e-4 as documented, options worth more than 1e-6 of spot time value']
RATES = [(0.05, 0.02), (0.01, 0.045), (-0.005, 0.01), (0.03, 0.03), (0.0, 0.0), (0.12, -0.01)]


IV = [0.005, 0.01, 0.03, 0.08, 0.15, 0.4, 1.2, 1.8]


def grids(tier):
    if tier == 'quick':
        return [0.6, 0.85, 0.96, 1, 1.0001, 1.02, 1.1, 1.35, 2], [0.0, 1e-4, 1 / 365, 0.1, 0.5, 2, 10], [0.03, 0.1, 0.25, 0.9]
    return [0.5 + 0.075 * i for i in range(20)] + [1], [0.0, 1e-4, 1e-3, 1 / 365, 7 / 365, 0.1, 0.25, 0.5, 1, 2, 10], [0.01, 0.03, 0.07, 0.1, 0.2, 0.35, 0.6, 1.2]


def units(tier):
    nr = 4 if tier == 'quick' else 6
    u = [dict(kind='price', S=S, rates=RATES[i], fmult=fm, tier=tier) for S in (1.2, 0.0081) for i in range(nr) for fm in (None, 1.0, 1.01, 0.96)]
    u += [dict(kind='iv', r=r, v=v, tier=tier) for r in (0, 1) for v in range(len(IV))]
    return u + [dict(kind='vec', tier=tier), dict(kind='reject', tier=tier)]


def ref(S, K, t, r, q, v, cp):
    s = v * math.sqrt(t)
    d1 = (math.log(S / K) + (r - q) * t) / s + s / 2
    d2 = d1 - s
    eq, er = math.exp(-q * t), math.exp(-r * t)
    return dict(price=cp * (S * eq * N(cp * d1) - K * er * N(cp * d2)),
                spot_delta=cp * eq * N(cp * d1), forward_delta=cp * N(cp * d1),
                vega=0.01 * S * eq * math.sqrt(t) * n(d1),
                theta=(-S * eq * n(d1) * v / (2 * math.sqrt(t)) + cp * q * S * eq * N(cp * d1) - cp * r * K * er * N(cp * d2)) / 365.25,
                gamma=0.01 * S * eq * n(d1) / (S * s),
                rho=0.01 * cp * K * t * er * N(cp * d2))


def one(x):
    x = np.asarray(x, float)
    return float(x.ravel()[0]) if x.size == 1 else float('nan')


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)


def do_price(u, rec):
    M, TAU, VOL = grids(u['tier'])
    S, (rd, rf), fm = u['S'], u['rates'], u['fmult']
    for t, m, v in itertools.product(TAU, M, VOL):
        par = S * math.exp((rd - rf) * t)
        F = None if fm is None else par * fm
        if F is not None and t == 0:
            continue
        r = rd if F is None else math.log(F / S) / t + rf
        K = (F or par) * m
        px = {}
        for cp in (1, -1):
            case = dict(S0=S, K=K, tau=t, r_d=rd, r_f=rf, vol=v, cp=cp, F=F)
            rec.state(repr(case))
            live = t > 0
            num = t > 5 / 365 and v > 0.02
            ok, g = rec.call('raises', case, garman_kohlhagen_price, S0=S, tau=t, r_d=rd, r_f=rf, cp=cp, K=K, vol=v, F=F, analytical_greeks=live, numerical_greeks=num, intrinsic_time_split=True)
            if not ok:
                continue
            w = ref(S, K, t, r, rf, v, cp) if live else dict(price=max(0.0, cp * (S - K)))
            it = max(0.0, cp * (S * math.exp(-rf * t) - K * math.exp(-r * t)))
            sc = S * max(1, m) * 2
            rec.trace()
            p = px[cp] = one(g['price'])
            rec.outcome(round(p, 9))
            rec.check(abs(p - w['price']) <= 1e-11 * sc, 'price', case, lambda: '%r want %r' % (p, w['price']))
            rec.check(abs(one(g['intrinsic']) - it) <= 1e-11 * sc and abs(one(g['time']) - (w['price'] - it)) <= 1e-11 * sc, 'value_split', case, lambda: '%r %r' % (g['intrinsic'], g['time']))
            if live:
                for k in ('spot_delta', 'forward_delta', 'vega', 'theta', 'gamma', 'rho'):
                    x = one(g['analytical_greeks'][k])
                    rec.check(abs(x - w[k]) <= 1e-10 * max(abs(w[k]), 1e-4 * sc), 'analytical_' + k, case, lambda: '%r want %r' % (x, w[k]))
            if num:
                rng = {'spot_delta': [ref(S * (1 + i / 1000), K, t, r, rf, v, cp)['spot_delta'] for i in range(-10, 11, 2)],
                       'vega': [ref(S, K, t, r, rf, v + i / 1000, cp)['vega'] for i in range(-10, 11, 2)],
                       'theta': [ref(S, K, t + i / 3652.5, r, rf, v, cp)['theta'] for i in range(-10, 11, 2)],
                       'gamma': [ref(S * (1 + i / 1000), K, t, r, rf, v, cp)['gamma'] / (1 + i / 1000) for i in range(-10, 11, 2)],
                       'rho': [ref(S, K, t, r + i / 1000, rf, v, cp)['rho'] for i in range(-10, 11, 2)]}
                # gamma reported per 1% of the unbumped spot
                rng['gamma'] = [ref(S * (1 + i / 1000), K, t, r, rf, v, cp)['gamma'] / (S * (1 + i / 1000)) * S for i in range(-10, 11, 2)]
                rng['forward_delta'] = [x / math.exp(-rf * t) for x in rng['spot_delta']]
                for k, a in rng.items():
                    x = one(g['numerical_greeks'][k])
                    lo, hi = min(a), max(a)
                    slack = 0.06 * (hi - lo) + 1e-8 * (sc if k in ('vega', 'theta', 'rho') else 1)
                    rec.check(lo - slack <= x <= hi + slack, 'numerical_' + k, case, lambda: '%r not in [%r,%r]' % (x, lo, hi))
            if live and F is None and w['price'] - it > 1e-6 * S:
                for guess in (0.1, 0.3, 0.03):
                    c2 = dict(case, guess=guess, X=w['price'])
                    rec.state(repr(c2))
                    ok, iv = rec.call('raises', c2, garman_kohlhagen_solve_implied_vol, S0=S, tau=t, r_d=rd, r_f=rf, cp=cp, K=K, X=w['price'], vol_guess=guess)
                    if ok:
                        rec.trace()
                        rec.check(abs(float(iv) - v) <= 1e-4, 'implied_vol', c2, lambda: '%r want %r' % (iv, v))
            if live and F is None:
                hi = S * math.exp(-rf * t) if cp == 1 else K * math.exp(-rd * t)
                for X in ([it * 0.9] if it > 0.01 * S else []) + [hi * 1.02]:
                    rec.step()
                    try:
                        iv = float(garman_kohlhagen_solve_implied_vol(S0=S, tau=t, r_d=rd, r_f=rf, cp=cp, K=K, X=X, vol_guess=0.2))
                    except Exception:
                        iv = float('nan')
                    rec.check(not math.isfinite(iv), 'unattainable', dict(case, X=X), lambda: 'volatility %r for an unattainable price' % iv)
        if len(px) == 2:
            w = S * math.exp(-rf * t) - K * math.exp(-r * t) if t else S - K
            rec.check(abs(px[1] - px[-1] - w) <= 1e-11 * sc, 'parity', case, lambda: 'C-P=%r want %r' % (px[1] - px[-1], w))
    rec.sample(case)


def do_iv(u, rec):
    S, (rd, rf) = 1.1, [(0.03, 0.01), (-0.005, 0.02)][u['r']]
    v = IV[u['v']]
    for t, cp, x in itertools.product((7 / 365, 0.25, 1., 10.), (1, -1), [i / 2 for i in range(-10, 11)]):
        K = S * math.exp((rd - rf) * t + x * v * math.sqrt(t))
        X = ref(S, K, t, rd, rf, v, cp)['price']
        it = max(cp * (S * math.exp(-rf * t) - K * math.exp(-rd * t)), 0.)
        if X - it <= 1e-6 * max(S, X):
            continue
        for g in (0.01, 0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.3, 0.5, 1.0) if u['tier'] == 'quick' else [i / 100 for i in range(1, 151, 2)]:
            case = dict(S0=S, tau=t, r_d=rd, r_f=rf, cp=cp, K=K, vol=v, X=X, guess=g)
            rec.state(repr(case))
            ok, iv = rec.call('raises', case, garman_kohlhagen_solve_implied_vol, S0=S, tau=t, r_d=rd, r_f=rf, cp=cp, K=K, X=X, vol_guess=g)
            if ok:
                rec.trace()
                rec.check(abs(float(iv) - v) <= 1e-4, 'implied_vol', case, lambda: '%r want %r' % (iv, v))


def do_vec(u, rec):
    A = dict(S0=[1.2, 1.1, 1.3], tau=[0.5, 2.0, 0.02], r_d=[0.05, 0.01, 0.02], r_f=[0.02, 0.03, 0.0], cp=[1, -1, 1], K=[1.25, 1.0, 1.3], vol=[0.1, 0.2, 0.3], F=[1.21, 1.05, 1.33])
    names = list(A)
    for useF in (False, True):
        for zero_tau in (False, True):
            for mask in itertools.product((False, True), repeat=8):
                sel = dict(zip(names, mask))
                if sel['cp'] != sel['K'] or sel['K'] != sel['vol'] or (not useF and sel['F']) or (useF and zero_tau):
                    continue
                d = {k: (np.array(A[k]) if sel[k] else A[k][0]) for k in names}
                if not useF:
                    d['F'] = None
                if zero_tau:
                    d['tau'] = np.array([0.5, 0.0, 0.02]) if sel['tau'] else 0.0
                case = dict(vectors=[k for k in names if sel[k]], F=useF, zero_tau=zero_tau)
                rec.state(repr(case))
                kw = dict(intrinsic_time_split=True)
                if not zero_tau:
                    kw.update(analytical_greeks=True, numerical_greeks=True)
                keep = {k: np.array(v, copy=True) for k, v in d.items()}
                ok, g = rec.call('raises', case, garman_kohlhagen_price, **d, **kw)
                if not ok:
                    continue
                rec.trace()
                rows = 3 if any(mask) else 1
                for i in range(rows):
                    e = garman_kohlhagen_price(**{k: (v[i] if np.ndim(v) else v) for k, v in d.items()}, **kw)
                    for key in ('price', 'intrinsic', 'time'):
                        x = np.broadcast_to(np.asarray(g[key], float), (rows,))[i]
                        rec.check(abs(x - one(e[key])) <= 1e-11, 'vector', dict(case, i=i), lambda: '%s %r want %r' % (key, x, one(e[key])))
                    for kind in ('analytical_greeks', 'numerical_greeks'):
                        for key in (e[kind] if kind in e else ()):
                            x = np.broadcast_to(np.asarray(g[kind][key], float), (rows,))[i]
                            rec.check(abs(x - one(e[kind][key])) <= 1e-10, 'vector', dict(case, i=i), lambda: '%s %r want %r' % (key, x, one(e[kind][key])))
                rec.check(all(np.array_equal(keep[k], np.asarray(d[k])) for k in names if d[k] is not None), 'mutated', case, 'arguments modified')
    rec.sample(case)


def do_reject(u, rec):
    good = dict(S0=1.2, tau=1.0, r_d=0.03, r_f=0.01, cp=1, K=1.2, vol=0.1)
    for bad in (dict(S0=0.0), dict(S0=-1.2), dict(tau=-0.1), dict(cp=0), dict(cp=2), dict(F=-1.0), dict(F=0.0), dict(cp=np.array([1, 3]), K=np.array([1.2, 1.2]), vol=np.array([.1, .1])), dict(K=np.array([1.1, 1.2]))):
        rec.step()
        rec.state(repr(bad))
        try:
            garman_kohlhagen_price(**dict(good, **bad))
            rec.fail('bad_input', dict(bad=bad), 'accepted')
        except Exception:
            rec.outcome('rejected')
    rec.sample(u)
