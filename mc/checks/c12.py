"""C12: compounding: zero rate <-> discount factor <-> rate conversion are mutually consistent."""
import itertools, math
import numpy as np, pandas as pd
from frm.enums.utils import CompoundingFreq

BOUNDS = {'quick': '8 compounding frequencies x 63 rates (-30%..40% and 1e-9 extremes) x 42 terms (1 hour..60 years); all 64 ordered conversion pairs and 512 conversion triples; scalar, array and Series containers',
          'thorough': '400 rates x 200 terms'}
ASSUMPTIONS = ['conversions from/to SIMPLE are for a one year term, as implemented and documented']
F = ['SIMPLE', 'CONTINUOUS', 'DAILY', 'WEEKLY', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL']
M = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}


def rates(tier):
    return [-0.3, -0.12, -0.05, -0.02, -0.005, -1e-6, 0.0, 1e-9, 1e-4] + list(np.linspace(0.0025, 0.4, 54 if tier == 'quick' else 400))


def terms(tier):
    return [1 / 8760, 0.001, 1 / 365, 7 / 365, 1 / 12, 0.25, 1 / 3, 0.5, 0.75, 1.0, 1.0 + 1 / 365] + list(np.linspace(1.25, 60, 31 if tier == 'quick' else 190))


def units(tier):
    return [dict(kind='df', f=f, tier=tier) for f in F] + [dict(kind='conv', f=f, tier=tier) for f in F]


def ref_df(f, r, t):
    if f == 'CONTINUOUS':
        return math.exp(-r * t)
    if f == 'SIMPLE':
        return 1 / (1 + r * t)
    return (1 + r / M[f]) ** (-M[f] * t)


def run_unit(u, rec):
    f = u['f']
    c = CompoundingFreq[f]
    R, T = rates(u['tier']), terms(u['tier'])
    if u['kind'] == 'df':
        for r, t in itertools.product(R, T):
            if f == 'SIMPLE' and 1 + r * t <= 0.05:
                continue
            case = dict(freq=f, rate=r, years=t)
            rec.state(f, r, t)
            ok, d = rec.call('raises', case, c.calc_discount_factor_from_zero_rate, t, r)
            if not ok:
                continue
            w = ref_df(f, r, t)
            rec.trace()
            rec.check(abs(d - w) <= 1e-10 * w, 'discount_factor', case, lambda: 'got %r want %r' % (d, w))
            ok, z = rec.call('raises', case, c.calc_zero_rate_from_discount_factor, t, w)
            if ok:
                rec.check(abs(z - r) <= 1e-11 / min(t, 1) + 1e-11 * abs(r), 'zero_rate', case, lambda: 'round trip gives %r' % z)
            rec.outcome(round(float(d), 6))
        rec.sample(case)
        ok, d = rec.call('raises', dict(freq=f, years=0), c.calc_discount_factor_from_zero_rate, 0.0, 0.05)
        rec.check(ok and d == 1.0, 'df_at_zero', dict(freq=f), 'discount factor at 0 is not 1')
        # containers: element by element, order kept, input untouched
        t, r = np.array(T[:12]), np.array(R[5:17])
        w = np.array([ref_df(f, a, b) for a, b in zip(r, t)])
        for mk in (np.array, lambda x: pd.Series(x, index=range(3, 3 + len(x)))):
            for a, b, ww in ((t, r, w), (t[::-1], r[::-1], w[::-1])):
                aa, bb = mk(a), mk(b)
                ok, d = rec.call('raises', dict(freq=f, container=True), c.calc_discount_factor_from_zero_rate, years=aa, zero_rate=bb)
                if ok:
                    rec.trace()
                    rec.check(np.allclose(np.asarray(d), ww, rtol=1e-10, atol=0), 'container', dict(freq=f), 'vector result differs from scalar results')
                ok, z = rec.call('raises', dict(freq=f, container=True), c.calc_zero_rate_from_discount_factor, years=aa, discount_factor=mk(ww))
                if ok:
                    rec.check(np.allclose(np.asarray(z), b, rtol=1e-9, atol=1e-10), 'container', dict(freq=f), 'vector zero rates differ')
                rec.check(np.array_equal(np.asarray(aa), a) and np.array_equal(np.asarray(bb), b), 'mutated', dict(freq=f), 'inputs modified')
        return
    one = lambda x: 1.0 if x == 'SIMPLE' else None
    for g, r in itertools.product(F, R):
        case = dict(src=f, dst=g, rate=r)
        rec.state(f, g, r)
        ok, x = rec.call('raises', case, c.convert_rate_to, r, CompoundingFreq[g])
        if not ok:
            continue
        rec.trace()
        for t in ((1.0,) if 'SIMPLE' in (f, g) else (0.25, 1.0, 7.5)):
            a, b = ref_df(f, r, t), ref_df(g, x, t)
            rec.check(abs(a - b) <= 1e-10 * a, 'conversion_changes_df', dict(case, years=t), lambda: 'discount factor %r becomes %r (rate %r)' % (a, b, x))
        ok, y = rec.call('raises', case, CompoundingFreq[g].convert_rate_to, x, c)
        if ok:
            rec.check(abs(y - r) <= 1e-10 * max(1, abs(r)) , 'round_trip', case, lambda: 'back conversion gives %r' % y)
        for h in F:
            ok, z = rec.call('raises', dict(case, via=h), c.convert_rate_to, r, CompoundingFreq[h])
            ok2, z2 = rec.call('raises', dict(case, via=h), CompoundingFreq[h].convert_rate_to, z, CompoundingFreq[g])
            rec.check(ok and ok2 and abs(z2 - x) <= 1e-10, 'path_dependence', dict(case, via=h), lambda: '%r via %s, %r direct' % (z2, h, x))
    rec.sample(case)
