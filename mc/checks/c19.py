"""C19: Black76 and Bachelier prices, value splits and greeks equal their definitions for every parameter and every vector form."""
import itertools, math
import numpy as np, pandas as pd
from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price
from mc.ref.options import black, bachelier

BOUNDS = {
    'quick': 'Black76: 4 forwards (one negative) x 11 strikes x 7 expiries (incl. 0) x 6 vols (incl. 0) x call/put x 3 shifts x 3 annuity factors, with the value split and both kinds of greeks on the same grid; '
             'Bachelier: 5 forwards (incl. 0, negative) x 11 strikes x 7 expiries x 6 vols x call/put x 3 annuity factors; every subset of the parameters passed as a vector of 3 vs the three scalar calls',
    'thorough': 'as quick with 41 strikes, 14 expiries, 12 vols, vectors of 1..5'}
ASSUMPTIONS = ['greeks are not defined at expiry or at zero volatility', 'numerical vega needs a volatility above its one point bump']


def grids(tier):
    if tier == 'quick':
        return [0.4, 0.7, 0.9, 0.97, 0.999, 1, 1.001, 1.03, 1.1, 1.4, 2.5], [0.0, 1 / 365, 0.1, 0.5, 1, 5, 30], [0.0, 0.005, 0.05, 0.2, 0.6, 2]
    return [0.3 + 0.05 * i for i in range(41)], [0.0, 1 / 365, 7 / 365, 0.05, 0.1, 0.25, 0.5, 1, 2, 3, 5, 10, 20, 30], [0.0, 0.001, 0.005, 0.02, 0.05, 0.1, 0.2, 0.4, 0.6, 1, 2, 4]


def units(tier):
    u = [dict(kind='black', F=F, shift=s, tier=tier) for F in (0.03, 1.2, 150.0, -0.004) for s in (0.0, 0.01, 0.05) if F + s > 0]
    u += [dict(kind='bach', F=F, tier=tier) for F in (0.03, 0.0, -0.01, 1.2, 150.0)]
    return u + [dict(kind='vec', model=m, tier=tier) for m in ('black', 'bach')]


def near(a, b, scale, tol=1e-11):
    return abs(a - b) <= tol * scale + 1e-300


def one(x):
    x = np.asarray(x, float)
    return float(x.ravel()[0]) if x.size == 1 else float('nan')


def run_unit(u, rec):
    {'black': do_black, 'bach': do_bach, 'vec': do_vec}[u['kind']](u, rec)


def do_black(u, rec):
    M, TAU, VOL = grids(u['tier'])
    F, s = u['F'], u['shift']
    for m, tau, v, ann in itertools.product(M, TAU, VOL, (1, 0.2425, 3.5)):
        K = (F + s) * m - s
        px = {}
        for cp in (1, -1):
            case = dict(model='black76', F=F, K=K, tau=tau, vol=v, cp=cp, shift=s, annuity=ann)
            rec.state(repr(case))
            live = tau > 0 and v > 0
            ok, r = rec.call('raises', case, black76_price, F=F, tau=tau, cp=cp, K=K, vol_sln=v, ln_shift=s, annuity_factor=ann, intrinsic_time_split=True, analytical_greeks=live, numerical_greeks=live and v > 0.02)
            if not ok:
                continue
            w, delta, vega = black(F, K, tau, v, cp, s, ann)
            sc = ann * (F + s) * max(1, m)
            p = px[cp] = one(r['price'])
            rec.trace()
            rec.outcome(round(p, 9))
            rec.check(near(p, w, sc), 'price', case, lambda: 'price %r want %r' % (p, w))
            it = ann * max(0.0, cp * (F - K))
            rec.check(near(one(r['intrinsic']), it, sc) and near(one(r['time']), w - it, sc), 'value_split', case, lambda: 'split %r+%r want %r+%r' % (r['intrinsic'], r['time'], it, w - it))
            if live:
                g = r['analytical_greeks']
                rec.check(near(one(g['delta']), delta, ann), 'delta', case, lambda: '%r want %r' % (one(g['delta']), delta))
                rec.check(near(one(g['vega']), vega * 0.01, sc * max(1, tau)), 'vega', case, lambda: '%r want %r' % (one(g['vega']), vega * .01))
            if live and v > 0.02:
                g = r['numerical_greeks']
                f = F + s
                ds = sorted(black(x, K + s, tau, v, cp, 0, ann)[1] for x in (f * 0.99, f * 1.01))
                rec.check(ds[0] - 1e-9 * ann <= one(g['delta']) <= ds[1] + 1e-9 * ann, 'numerical_delta', case, lambda: '%r not in %s' % (one(g['delta']), ds))
                vs = [black(F, K, tau, v + i / 1000, cp, s, ann)[2] * .01 for i in range(-10, 11)]
                rec.check(min(vs) - 1e-9 * sc <= one(g['vega']) <= max(vs) * (1 + 1e-6) + 1e-6 * sc * 0.01 + 1e-9 * sc, 'numerical_vega', case, lambda: '%r not in [%r,%r]' % (one(g['vega']), min(vs), max(vs)))
        if len(px) == 2:
            rec.check(near(px[1] - px[-1], ann * (F - K), sc), 'parity', case, lambda: 'C-P=%r' % (px[1] - px[-1]))
    rec.sample(case)


def do_bach(u, rec):
    M, TAU, VOL = grids(u['tier'])
    F = u['F']
    unit = abs(F) or 0.02
    for m, tau, v, ann in itertools.product(M, TAU, VOL, (1, 0.2425, 3.5)):
        K, vn = F + (m - 1) * unit, v * unit
        px = {}
        for cp in (1, -1):
            case = dict(model='bachelier', F=F, K=K, tau=tau, vol=vn, cp=cp, annuity=ann)
            rec.state(repr(case))
            live = tau > 0 and v > 0
            ok, r = rec.call('raises', case, bachelier_price, F=F, tau=tau, cp=cp, K=K, vol_n=vn, annuity_factor=ann, intrinsic_time_split=True, analytical_greeks=live)
            if not ok:
                continue
            w, delta, vega, theta = bachelier(F, K, tau, vn, cp, ann)
            sc = ann * unit * max(1, m, v * math.sqrt(tau))
            p = px[cp] = one(r['price'])
            rec.trace()
            rec.outcome(round(p, 9))
            rec.check(near(p, w, sc), 'price', case, lambda: 'price %r want %r' % (p, w))
            it = ann * max(0.0, cp * (F - K))
            rec.check(near(one(r['intrinsic']), it, sc) and near(one(r['time']), w - it, sc), 'value_split', case, lambda: 'split %r+%r want %r+%r' % (r['intrinsic'], r['time'], it, w - it))
            if live:
                g = r['analytical_greeks']
                for name, want in (('delta', delta), ('vega', vega * 1e-4), ('theta', theta / 365.25)):
                    rec.check(abs(one(g[name]) - want) <= 1e-11 * max(abs(want), 1e-6 * ann * (1 if name == 'delta' else unit)), name, case, lambda: '%r want %r' % (one(g[name]), want))
        if len(px) == 2:
            rec.check(near(px[1] - px[-1], ann * (F - K), sc), 'parity', case, lambda: 'C-P=%r' % (px[1] - px[-1]))
    rec.sample(case)


def do_vec(u, rec):
    A = dict(F=[0.03, 0.025, 0.041, 0.03, 0.02], tau=[0.5, 2.0, 0.0, 1.0, 0.25], cp=[1, -1, 1, -1, 1], K=[0.031, 0.025, 0.02, 0.05, 0.03], vol=[0.2, 0.35, 0.1, 0.5, 0.2], shift=[0.01, 0.0, 0.02, 0.01, 0.03], ann=[0.25, 0.5, 1.0, 2.0, 0.9])
    names = [k for k in A if not (u['model'] == 'bach' and k == 'shift')]

    def call(d, **kw):
        if u['model'] == 'black':
            return black76_price(F=d['F'], tau=d['tau'], cp=d['cp'], K=d['K'], vol_sln=d['vol'], ln_shift=d['shift'], annuity_factor=d['ann'], **kw)
        return bachelier_price(F=d['F'], tau=d['tau'], cp=d['cp'], K=d['K'], vol_n=np.asarray(d['vol']) * 0.03 if np.ndim(d['vol']) else d['vol'] * 0.03, annuity_factor=d['ann'], **kw)

    for size in ((3,) if u['tier'] == 'quick' else (2, 3, 4, 5)):
        for off in range(2):
            for mask in itertools.product((False, True), repeat=len(names)):
                sel = dict(zip(names, mask))
                if sel['F'] != sel['tau']:
                    continue
                for form in (np.array, list):
                    d = {k: (form([A[k][(i + off) % 5] for i in range(size)]) if sel[k] else A[k][off]) for k in names}
                    keep = {k: np.array(v, copy=True) for k, v in d.items()}
                    case = dict(model=u['model'], vectors=[k for k in names if sel[k]], size=size, off=off, form=form.__name__)
                    rec.state(repr(case))
                    live = not (np.asarray(d['tau']) == 0).any()
                    kw = dict(intrinsic_time_split=True, analytical_greeks=live)
                    if live and u['model'] == 'black' and form is np.array:
                        kw['numerical_greeks'] = True
                    ok, r = rec.call('raises', case, call, d, **kw)
                    if not ok:
                        continue
                    rec.trace()
                    nrow = size if any(mask) else 1
                    for i in range(nrow):
                        e = call({k: (d[k][i] if sel[k] else d[k]) for k in names}, **kw)
                        for key in ('price', 'intrinsic', 'time'):
                            g = np.broadcast_to(np.asarray(r[key], float), (nrow,))
                            rec.check(near(g[i], one(e[key]), 1e-2), 'vector', dict(case, i=i), lambda: '%s: %r want %r' % (key, g[i], one(e[key])))
                        if live:
                            for kind in ('analytical_greeks', 'numerical_greeks'):
                                for key in e.get(kind, ()):
                                    g = np.broadcast_to(np.asarray(r[kind][key], float), (nrow,))
                                    rec.check(near(g[i], one(e[kind][key]), 1e-2, 1e-11), 'vector', dict(case, i=i), lambda: '%s: %r want %r' % (key, g[i], one(e[kind][key])))
                    rec.check(all(np.array_equal(keep[k], d[k]) for k in names), 'mutated', case, 'arguments modified')
    rec.sample(case)
