"""C22: the strike solved from a delta quote has exactly that delta, on the market's branch, for every convention, vector and forward."""
import itertools, math
import numpy as np
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as solve
from mc.ref.options import N, n

CONV = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']
RATES = [(0.05, 0.02), (0.01, 0.045), (-0.005, 0.01), (0.03, 0.03), (0.12, -0.01), (0.0, 0.0)]
BOUNDS = {
    'quick': '4 spots (6.5e-5 .. 150) x 4 rate pairs x 6 expiries (1 day .. 15y) x 5 vols x 13 signed deltas (0.5 and -0.5 included) x 4 delta conventions x 2 at-the-money conventions x {parity forward, none, two off-parity forwards}; '
             'all pairs and selected triples of (vol, delta) as vectors; invalid arguments one at a time',
    'thorough': '5 spots, 6 rate pairs, 11 expiries (to 30y), 9 vols, 23 deltas; all triples of a 6-quote alphabet as vectors'}
ASSUMPTIONS = ['foreign rate x expiry below ln 2 (above it the largest quoted spot deltas do not exist)', 'a premium-adjusted call delta above the attainable maximum must be rejected',
               'zero delta is not a quote']


def grids(tier):
    if tier == 'quick':
        return [1 / 365, 0.1, 0.5, 2, 10, 15], [0.03, 0.1, 0.2, 0.4, 1.0], [0.01, 0.1, 0.2, 0.25, 0.4, 0.49, 0.5]
    return [1 / 365, 7 / 365, 0.1, 0.25, 0.5, 1, 2, 5, 10, 15, 30], [0.01, 0.03, 0.07, 0.1, 0.15, 0.2, 0.4, 0.7, 1.0], [0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.49, 0.5]


def units(tier):
    S = [1.2, 150.0, 0.0065, 6.5e-5] + ([16000.0] if tier != 'quick' else [])
    nr = 4 if tier == 'quick' else 6
    u = [dict(kind='scalar', S=s, rates=RATES[i], conv=c, tier=tier) for c in CONV for s in S for i in range(nr)]
    return u + [dict(kind='vec', conv=c, S=s, tier=tier) for c in CONV for s in (1.2, 150.0)] + [dict(kind='reject', tier=tier)]


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def delta_of(K, F, t, rf, v, cp, conv):
    s = v * math.sqrt(t)
    d1 = math.log(F / K) / s + s / 2
    mult = math.exp(-rf * t) if conv.endswith('spot') else 1.0
    if conv.startswith('regular'):
        return mult * cp * N(cp * d1)
    return mult * cp * K / F * N(cp * (d1 - s))


def on_branch(K, F, t, v):
    """premium-adjusted call delta falls with the strike to the right of its maximum: s*N(d2) < n(d2)"""
    s = v * math.sqrt(t)
    d2 = math.log(F / K) / s - s / 2
    return s * N(d2) <= n(d2) * (1 + 1e-6)


def max_call(F, t, rf, v, conv):
    s = v * math.sqrt(t)
    lo, hi = -60.0, 60.0        # d2 where s*N(d2) = n(d2)
    for _ in range(200):
        m = (lo + hi) / 2
        if s * N(m) < n(m):
            lo = m
        else:
            hi = m
    K = F * math.exp(-lo * s - s * s / 2)
    return delta_of(K, F, t, rf, v, 1, conv)


def one(x):
    x = np.asarray(x, float)
    return float(x.ravel()[0]) if x.size == 1 else float('nan')


def expected_atm(F, t, rf, v, cp, conv, atm):
    if conv.startswith('premium'):
        return F * math.exp(-v * v * t / 2)
    if atm == 'forward' or conv == 'regular_forward':
        return F * math.exp(v * v * t / 2)
    return None


def do_scalar(u, rec):
    T, V, D = grids(u['tier'])
    S, (rd, rf), conv = u['S'], u['rates'], u['conv']
    for t, v, atm, fm in itertools.product(T, V, ('forward', 'per_delta_convention'), (None, 1.0, 1.02, 0.95)):
        if rf * t >= 0.6:
            continue
        par = S * math.exp((rd - rf) * t)
        F = par * (fm or 1.0)
        kw = dict(S0=S, tau=t, r_d=rd, r_f=rf, vol=v, delta_convention=conv, atm_delta_convention=atm)
        if fm is not None:
            kw['F'] = F
        prev = {}
        top = max_call(F, t, rf, v, conv) if conv.startswith('premium') else 1.0
        for a, cp in itertools.product(D, (1, -1)):
            case = dict(kw, signed_delta=cp * a)
            rec.state(repr(case))
            if cp == 1 and a != 0.5 and a > top * (1 - 1e-9):
                rec.step()
                if a > top * (1 + 1e-6):
                    try:
                        K = one(solve(signed_delta=cp * a, **kw))
                        rec.check(K != K, 'impossible_delta', case, lambda: 'got strike %r, largest delta is %r' % (K, top))
                    except Exception:
                        pass
                continue
            ok, K = rec.call('raises', case, solve, signed_delta=cp * a, **kw)
            if not ok:
                continue
            K = one(K)
            rec.trace()
            rec.outcome(round(K / F, 9))
            if not rec.check(K > 0, 'strike', case, lambda: 'strike %r' % K):
                continue
            w = expected_atm(F, t, rf, v, cp, conv, atm) if a == 0.5 else None
            if w is not None:
                rec.check(abs(K - w) <= 1e-10 * w, 'atm_strike', case, lambda: 'got %r want %r' % (K, w))
            else:
                g = delta_of(K, F, t, rf, v, cp, conv)
                rec.check(abs(g - cp * a) <= 2e-6, 'delta', case, lambda: 'strike %r has delta %r' % (K, g))
                if conv.startswith('premium') and cp == 1:
                    rec.check(on_branch(K, F, t, v), 'branch', case, lambda: 'strike %r is left of the largest delta' % K)
                if cp in prev and a < 0.5:       # calls: a larger delta is a lower strike; puts: a higher one
                    rec.check((prev[cp] - K) * cp > 0, 'monotone', case, lambda: 'strike %r after %r' % (K, prev[cp]))
                prev[cp] = K


def do_vec(u, rec):
    conv, S = u['conv'], u['S']
    alpha = [(0.1, 0.25), (0.1, -0.25), (0.2, 0.5), (0.15, -0.5), (0.08, -0.1), (0.3, 0.4)]
    for t, (rd, rf), atm, F in itertools.product((0.1, 2), RATES[:3], ('forward', 'per_delta_convention'), (None, S * 1.03)):
        kw = dict(S0=S, tau=t, r_d=rd, r_f=rf, delta_convention=conv, atm_delta_convention=atm)
        if F is not None:
            kw['F'] = F
        single = {}
        for q in alpha:
            ok, K = rec.call('raises', dict(kw, quote=q), solve, vol=q[0], signed_delta=q[1], **kw)
            single[q] = one(K) if ok else None
        if None in single.values():
            return
        combos = list(itertools.product(alpha, repeat=2)) + (list(itertools.product(alpha, repeat=3)) if u['tier'] != 'quick' else list(itertools.permutations(alpha, 3))) + [alpha, alpha[::-1], alpha[:1] * 5]
        for c in combos:
            v, d = [q[0] for q in c], [q[1] for q in c]
            for form in (np.array, list):
                case = dict(kw, vol=v, delta=d, form=form.__name__)
                rec.state(repr(case))
                a, b = form(v), form(d)
                ok, K = rec.call('raises', case, solve, vol=a, signed_delta=b, **kw)
                if ok:
                    K = np.asarray(K, float)
                    w = [single[q] for q in c]
                    rec.trace()
                    rec.outcome(len(c), round(float(K.sum()), 6))
                    rec.check(K.shape == (len(c),) and np.allclose(K, w, rtol=1e-8, atol=0), 'vector', case, lambda: 'got %s want %s' % (list(K), w))
                rec.check(list(a) == v and list(b) == d, 'input_modified', case)


def do_reject(u, rec):
    good = dict(S0=1.2, tau=0.5, r_d=0.03, r_f=0.01, vol=0.1, signed_delta=0.25, delta_convention='regular_spot', F=1.21, atm_delta_convention='forward')
    bad = [('S0', 0.0), ('S0', -1.2), ('tau', 0.0), ('tau', -0.5), ('vol', 0.0), ('vol', -0.1), ('signed_delta', 0.51), ('signed_delta', -0.6), ('signed_delta', 25), ('delta_convention', 'spot'), ('delta_convention', ''),
           ('F', 0.0), ('F', -1.2), ('atm_delta_convention', 'spot'), ('vol', np.array([0.1, 0.2])), ('signed_delta', np.array([0.1, 0.2])), ('signed_delta', np.array([0.1, 0.7]))]
    for conv in CONV:
        for k, v in bad:
            case = dict(good, delta_convention=conv)
            case[k] = v
            rec.state(repr(case))
            rec.step()
            try:
                r = solve(**case)
                rec.fail('accepted', dict(field=k, value=repr(v), conv=conv), 'returned %r' % (r,))
            except Exception:
                rec.trace()
                rec.outcome('rejected', k)
