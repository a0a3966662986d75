"""C27: forward volatility and flat-forward interpolation conserve total variance, for every pair of expiries, every container and every interpolation point."""
import itertools, math, warnings
import numpy as np
from frm.pricing_engine.volatility_generic import forward_volatility as fwd, flat_forward_interp as interp

BOUNDS = {
    'quick': 'every pair of 10 expiries (an hour .. 30y, down to an hour apart) x 7 x 7 volatilities x 12 positions of the interpolation point (before, at, between, after, far outside); every chain of up to 4 expiries; every subset of the arguments as '
             'vectors, columns and matrices; equal expiries mixed with ordinary ones in every pattern of 4; integers; invalid pairs at every position',
    'thorough': '15 expiries, 12 volatilities, 20 positions, chains of up to 6, patterns of 6'}
ASSUMPTIONS = ['outside [t1, t2] the boundary volatility applies, as documented', 'total variance that does not increase between the expiries is rejected; within rounding of constant either answer is accepted']


def T(tier):
    return [1e-4, 1 / 365, 7 / 365, 1 / 12, 0.5, 0.5001, 1, 2, 10, 30] if tier == 'quick' else [1e-4, 1 / 365, 1.1 / 365, 2 / 365, 7 / 365, 1 / 12, 0.25, 0.5, 0.5001, 1, 1.5, 2, 5, 10, 30]


def V(tier):
    return [0.001, 0.05, 0.1, 0.11, 0.2, 0.5, 1.5] if tier == 'quick' else [0.0, 0.001, 0.03, 0.05, 0.08, 0.1, 0.11, 0.2, 0.3, 0.5, 1.0, 1.5]


def W(tier):
    return [0, 1, 0.5, 0.01, 0.99, 0.2, 0.8, -0.3, 1.4, 40, 1e-9, 1 - 1e-9] if tier == 'quick' else [0, 1, 0.5, 0.01, 0.99, 0.2, 0.8, -0.3, 1.4, 40, 1e-9, 1 - 1e-9, 0.1, 0.3, 0.4, 0.6, 0.7, 0.9, -0.9, 2]


def units(tier):
    n = len(T(tier))
    return [dict(kind='pair', i=i, tier=tier) for i in range(n)] + [dict(kind='chain', i=i, tier=tier) for i in range(n)] + \
        [dict(kind='vec', tier=tier, mask=m) for m in range(32)] + [dict(kind='equal', tier=tier), dict(kind='reject')]


def run_unit(u, rec):
    warnings.simplefilter('ignore')
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def ref(t1, v1, t2, v2):
    x, y = v2 * v2 * t2, v1 * v1 * t1
    return (x - y) / (t2 - t1), max(x, y) / (t2 - t1)


def refi(t1, v1, t2, v2, t):
    if t <= t1:
        return v1
    if t >= t2:
        return v2
    return math.sqrt((v1 * v1 * t1 + (v2 * v2 * t2 - v1 * v1 * t1) * (t - t1) / (t2 - t1)) / t)


def do_pair(u, rec):
    q = u['tier']
    t1 = T(q)[u['i']]
    for t2, v1, v2 in itertools.product(T(q), V(q), V(q)):
        case = dict(t1=t1, vol_t1=v1, t2=t2, vol_t2=v2)
        rec.state(repr(case))
        rec.step()
        if t1 == t2:
            ok, x = rec.call('raises', case, fwd, t1, v1, t2, v2)
            rec.check(ok and np.isnan(x), 'equal', case, lambda: 'equal expiries give %r' % x)
            ok, x = rec.call('raises', case, interp, t1, v1, t2, v2, t1)
            rec.check(ok and abs(x - v1) <= 1e-12, 'pillar', case, lambda: '%r' % x)
            continue
        var, scale = ref(t1, v1, t2, v2)
        if t2 < t1 or var < -1e-12 * scale:
            for f, a in ((fwd, ()), (interp, ((t1 + t2) / 2,))):
                try:
                    x = f(t1, v1, t2, v2, *a)
                    rec.fail('accepted', case, 'gives %r' % x)
                except ValueError:
                    rec.outcome('rejected')
            continue
        if var <= 1e-12 * scale and not var == scale == 0:
            continue
        ok, x = rec.call('raises', case, fwd, t1, v1, t2, v2)
        if ok:
            rec.trace()
            rec.outcome(round(float(x), 9))
            rec.check(np.shape(x) == () and abs(x - math.sqrt(max(var, 0))) <= 1e-10 * max(1, math.sqrt(scale)), 'forward', case, lambda: '%r want %r' % (x, math.sqrt(var)))
        for w in W(q):
            t = t1 + w * (t2 - t1)
            if t <= 0:
                continue
            c = dict(case, t=t)
            rec.state(repr(c))
            ok, x = rec.call('raises_interp', c, interp, t1, v1, t2, v2, t)
            if ok:
                y = refi(t1, v1, t2, v2, t)
                rec.trace()
                rec.check(np.shape(x) == () and abs(x - y) <= 1e-10, 'interp', c, lambda: '%r want %r' % (x, y))


def do_chain(u, rec):
    """forward variances along every chain of expiries add up to the total variance"""
    q = u['tier']
    ts = T(q)
    vols = [0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65]
    for n in range(2, 5 if q == 'quick' else 7):
        for idx in itertools.combinations(range(u['i'], len(ts)), n):
            if idx[0] != u['i']:
                continue
            a = np.array([ts[j] for j in idx])
            v = np.array([vols[j] for j in idx])
            case = dict(t=a, vol=v)
            rec.state(repr(case))
            rec.step(n)
            ok, f = rec.call('raises', case, fwd, a[:-1], v[:-1], a[1:], v[1:])
            if ok:
                rec.trace()
                tot = v[0] ** 2 * a[0] + float(np.sum(f ** 2 * np.diff(a)))
                rec.check(np.shape(f) == (n - 1,) and abs(tot - v[-1] ** 2 * a[-1]) <= 1e-10 * tot, 'chain', case, lambda: 'total variance %r want %r' % (tot, v[-1] ** 2 * a[-1]))
                # interpolating at an intermediate expiry by its own chain value gives it back
                g = float(fwd(a[0], v[0], a[-1], v[-1]))
                mid = (a[0] + a[-1]) / 2
                m = interp(a[0], v[0], a[-1], v[-1], mid)
                rec.check(abs(fwd(a[0], v[0], mid, m) - g) <= 1e-9 and abs(fwd(mid, m, a[-1], v[-1]) - g) <= 1e-9, 'flat', case, 'the forward volatility is not flat around an interpolated point')


def do_vec(u, rec):
    base = [(0.5, 0.1, 2.0, 0.15, 1.0), (1.0, 0.2, 1.5, 0.21, 1.3), (0.1, 0.3, 0.2, 0.25, 0.3), (2.0, 0.12, 2.0, 0.12, 2.0)]
    m = u['mask']
    for shape in ((3,), (3, 1), (3, 2), (1,)):
        k = int(np.prod(shape))
        rows = [base[i % 3] for i in range(k)]
        args = [np.array([r[j] for r in rows]).reshape(shape) if m >> j & 1 else rows[0][j] for j in range(5)]
        flat = [np.broadcast_to(x, shape).ravel() for x in args]
        keep = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
        case = dict(shape=list(shape), vectors=[j for j in range(5) if m >> j & 1])
        rec.state(repr(case))
        bad = any(flat[2][i] < flat[0][i] or ref(*[flat[j][i] for j in range(4)])[0] < 0 for i in range(k) if flat[0][i] != flat[2][i])
        for f, na, g in ((fwd, 4, lambda *a: math.sqrt(ref(*a)[0])), (interp, 5, refi)):
            c = dict(case, f=f.__name__)
            if bad:
                continue
            ok, x = rec.call('raises_vector', c, f, *args[:na])
            if ok:
                rec.trace()
                y = np.array([g(*[flat[j][i] for j in range(na)]) for i in range(k)])
                s = shape if m & (2 ** na - 1) else ()
                rec.check(np.shape(x) == s and np.allclose(np.ravel(x), y[:np.size(x)], rtol=0, atol=1e-10), 'vector', c, lambda: '%r want %r' % (x, y))
        rec.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), 'mutated', case, 'arguments modified')


def do_equal(u, rec):
    n = 4 if u['tier'] == 'quick' else 6
    for pat in itertools.product((0, 1), repeat=n):
        t1 = np.array([0.5, 1.0, 0.1, 2.0, 3.0, 0.7][:n])
        t2 = np.where(pat, t1, t1 + [1, 0.5, 0.1, 2, 1, 0.3][:n])
        v1 = np.array([0.1, 0.2, 0.15, 0.3, 0.11, 0.12][:n])
        v2 = np.where(pat, v1, v1 + 0.02)
        t = t1 + 0.4 * (t2 - t1)
        case = dict(t1=t1, t2=t2, vol_t1=v1, vol_t2=v2)
        rec.state(repr(case))
        for col in (False, True):
            a = [x[:, None] if col else x for x in (t1, v1, t2, v2)]
            if col:
                a[1] = np.hstack([a[1], a[1] + 0.01])
                a[3] = np.hstack([a[3], a[3] + 0.01])
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                ok, x = rec.call('raises', case, fwd, *a)
            if ok:
                rec.trace()
                want = np.array([[math.nan if p else math.sqrt(ref(t1[i], v1[i] + e, t2[i], v2[i] + e)[0]) for e in (0, 0.01)] for i, p in enumerate(pat)])
                rec.check(np.allclose(x, want if col else want[:, 0], rtol=0, atol=1e-10, equal_nan=True), 'equal_mixed', dict(case, col=col), lambda: '%r want %r' % (x, want))
                rec.check(bool(ws) == any(pat), 'warning', dict(case, col=col), 'warning missing or spurious')
            ok, x = rec.call('raises_interp', case, interp, *a, t[:, None] if col else t)
            if ok:
                rec.trace()
                want = np.array([[refi(t1[i], v1[i] + e, t2[i], v2[i] + e, t[i]) for e in (0, 0.01)] for i in range(n)])
                rec.check(np.allclose(x, want if col else want[:, 0], rtol=0, atol=1e-10), 'interp_mixed', dict(case, col=col), lambda: '%r want %r' % (x, want))
        # one reversed or inconsistent pair anywhere is rejected, whatever the others are
        for i in range(n):
            for what in ('reversed', 'negative'):
                b2, w2 = t2.copy(), v2.copy()
                b2[i] = t1[i] / 2 if what == 'reversed' else t1[i] * 1.1
                w2[i] = v1[i] * (1 if what == 'reversed' else 0.5)
                c = dict(case, position=i, what=what)
                rec.step()
                rec.state(repr(c))
                try:
                    x = fwd(t1, v1, b2, w2)
                    rec.fail('accepted_mixed', c, 'gives %r' % x)
                except ValueError:
                    rec.outcome(what)


def do_reject(u, rec):
    """integers behave as floats"""
    for t1, v1, t2, v2, t in itertools.product((1, 2), (1, 2), (3, 4), (2, 3), (1, 2, 3)):
        if v2 * v2 * t2 <= v1 * v1 * t1:
            continue
        for wrap in (lambda x: x, lambda x: np.array([x]), lambda x: np.array([x, x])):
            case = dict(t1=t1, vol_t1=v1, t2=t2, vol_t2=v2, t=t)
            rec.state(repr(case))
            ok, x = rec.call('raises', case, fwd, *map(wrap, (t1, v1, t2, v2)))
            rec.check(ok and np.allclose(x, math.sqrt(ref(t1, v1, t2, v2)[0])), 'int', case, lambda: repr(x))
            ok, x = rec.call('raises', case, interp, *map(wrap, (t1, v1, t2, v2, t)))
            rec.trace()
            rec.check(ok and np.allclose(x, refi(t1, v1, t2, v2, t)), 'int_interp', case, lambda: repr(x))
