"""C26: simulated paths follow the discretised process exactly, for every sequence of shocks from an alphabet, every number of underlyings, scalar and vector code alike."""
import itertools, math
import numpy as np
from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
from frm.pricing_engine.heston import heston_simulate, heston_simulate_scalar
import frm.pricing_engine.clewlow_strickland_1_factor as cs
from mc.ref.options import N

BOUNDS = {
    'quick': 'GBM: every sequence of 1..4 shocks from {-3,-1,0,0.5,2} for 1 underlying, of 1..2 for 2 and 3 underlyings, 3 parameter sets each; Heston: every sequence of 1..3 pairs of shocks from {-2.5,-0.4,0.3,1.8}^2, 3 schemes, '
             '24 parameter sets, vectorised and (to 2 steps) scalar code; Clewlow-Strickland: shocks recovered from paths for 4 reversions x 3 vols x 3 curves x 1..3 segments, 1..5 loops',
    'thorough': 'GBM 6 shocks; Heston 4 pairs, 96 parameter sets'}
ASSUMPTIONS = ['which factorisation of the correlation the Euler schemes use is read from one step and must reproduce the correlation', 'Clewlow-Strickland draws do not depend on the model parameters (same seed)']
Z = [-3, -1, 0, 0.5, 2]
ZH = [-2.5, -0.4, 0.3, 1.8]


def hparams(tier):
    v0 = (0.01, 0.09) if tier == 'quick' else (0.0004, 0.01, 0.04, 0.09)
    return [dict(mu=m, var0=a, vv=v, kappa=k, theta=th, rho=r) for m, a, v, (k, th), r in itertools.product((0.02, -0.05) if tier != 'quick' else (0.02,), v0, (0.2, 1.2), ((1.5, 0.02), (4, 0.09)), (-0.7, 0.0, 0.5))]


def units(tier):
    q = tier == 'quick'
    u = [dict(kind='gbm', n=1, depth=d) for d in range(1, 5 if q else 7)] + [dict(kind='gbm', n=n, depth=d) for n in (2, 3) for d in ((1, 2) if n == 2 or not q else (1,))]
    u += [dict(kind='heston', par=p, dt=dt, depth=3 if q or i % 8 else 4) for i, p in enumerate(hparams(tier)) for dt in ((0.1,) if q else (0.02, 0.5))]
    u += [dict(kind='heston', par=p, dt=1e-3, depth=2) for p in hparams(tier)[::5]]
    u += [dict(kind='clewlow', seg=s) for s in (1, 2, 3)] + [dict(kind='loops')]
    return u + [dict(kind='reject')]


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def sequences(alphabet, depth):
    """shape (depth, len(alphabet[0]), number of sequences)"""
    return np.array(list(itertools.product(alphabet, repeat=depth)), float).transpose(1, 2, 0)


def do_gbm(u, rec):
    n, d = u['n'], u['depth']
    S = sequences(list(itertools.product(Z, repeat=n)), d)
    dts = [0.25, 1.0, 1 / 365, 3.0, 0.5, 0.1][:d]
    for k in range(3):
        px = [[1.2], [0.0065], [150.0]][k] if n == 1 else [1.2, 150.0, 0.0065][:n]
        drift = [[[0.01, -0.02, 0.0, 0.3, 0.1, 0.0][(i + j + k) % 6] for j in range(n)] for i in range(d)]
        vol = [[[0.1, 0.0, 0.6, 0.02, 0.3, 0.2][(i + 2 * j + k) % 6] for j in range(n)] for i in range(d)]
        forms = ['2d'] + (['1d'] if n == 1 else [])
        for form in forms:
            case = dict(n=n, depth=d, params=k, form=form)
            a = dict(initial_px=np.array(px), drift=np.array(drift), forward_volatility=np.array(vol), timestep_length=np.array(dts), rand_nbs=S.copy())
            if form == '1d':
                a.update(drift=a['drift'][:, 0], forward_volatility=a['forward_volatility'][:, 0], initial_px=px[0])
            keep = {x: np.copy(y) for x, y in a.items()}
            ok, x = rec.call('raises', case, simulate_gbm_path, **a)
            if not ok:
                continue
            if not rec.check(x.shape == (d + 1, n, S.shape[2]), 'shape', case, lambda: repr(x.shape)):
                continue
            rec.check(all(np.array_equal(keep[i], a[i]) for i in a), 'mutated', case, 'arguments modified')
            for s in range(S.shape[2]):
                rec.bulk_states += 1
                rec.step(d)
                rec.trace()
                for j in range(n):
                    v = px[j]
                    rec.check(x[0, j, s] == v, 'start', dict(case, s=s), 'does not start at the initial price')
                    for i in range(d):
                        v *= math.exp((drift[i][j] - vol[i][j] ** 2 / 2) * dts[i] + vol[i][j] * math.sqrt(dts[i]) * S[i, j, s])
                        if not rec.check(abs(x[i + 1, j, s] - v) <= 1e-10 * v, 'gbm', dict(case, shocks=S[:, :, s].tolist(), step=i, underlying=j), lambda: '%r want %r' % (x[i + 1, j, s], v)):
                            break
            rec.outcome(repr(x[-1, :, 0]))


def step(method, x, v, p, dt, z0, z1, u0, u1):
    if method == 'quadratic_exponential':
        e = math.exp(-p['kappa'] * dt)
        m = p['theta'] + (v - p['theta']) * e
        s2 = v * p['vv'] ** 2 * e / p['kappa'] * (1 - e) + p['theta'] * p['vv'] ** 2 / (2 * p['kappa']) * (1 - e) ** 2
        psi = s2 / m ** 2
        if psi <= 1.5:
            b2 = 2 / psi - 1 + math.sqrt(2 / psi * (2 / psi - 1))
            w = m / (1 + b2) * (math.sqrt(b2) + z1) ** 2
        else:
            pr, c = (psi - 1) / (psi + 1), N(z1)
            w = 0.0 if c <= pr else m / (1 - pr) * math.log((1 - pr) / (1 - c))
        k, r, vv = p['kappa'], p['rho'], p['vv']
        drift = p['mu'] * dt - r * k * p['theta'] / vv * dt + (dt / 2 * (k * r / vv - 0.5) - r / vv) * v + (dt / 2 * (k * r / vv - 0.5) + r / vv) * w
        return x * math.exp(drift + math.sqrt(dt / 2 * (1 - r * r) * (v + w)) * z0), w, v
    v = max(v, 0) if 'absorption' in method else abs(v)
    return x + x * (p['mu'] * dt + math.sqrt(v * dt) * u0), v + p['kappa'] * (p['theta'] - v) * dt + p['vv'] * math.sqrt(v * dt) * u1, v


METHODS = ['quadratic_exponential', 'euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process']


def do_heston(u, rec):
    p, dt = u['par'], u['dt']
    for method in METHODS:
        M = np.eye(2)
        case0 = dict(method=method, dt=dt, **p)
        if method != METHODS[0]:
            A = []
            for z in ((1.0, 0.0), (0.0, 1.0)):
                ok, y = rec.call('raises', case0, heston_simulate, S0=1.2, tau=dt, rand_nbs=np.array(z).reshape(1, 2, 1), method=method, **p)
                if ok:
                    A.append([(y[1, 0, 0] / 1.2 - 1 - p['mu'] * dt) / math.sqrt(p['var0'] * dt), (y[1, 1, 0] - p['var0'] - p['kappa'] * (p['theta'] - p['var0']) * dt) / math.sqrt(p['var0'] * dt) / p['vv']])
            if len(A) < 2:
                continue
            M = np.array(A)
            C = np.array([[1, p['rho']], [p['rho'], 1]])
            if not rec.check(np.allclose(M.T @ M, C, atol=1e-9), 'correlation', case0, lambda: 'covariance of the applied shocks %r' % (M.T @ M).tolist()):
                continue
        alpha = list(itertools.product(ZH, repeat=2))
        for d in range(1, u['depth'] + 1):
            S = sequences(alpha, d)
            s0 = S.copy()
            ok, y = rec.call('raises', dict(case0, depth=d), heston_simulate, S0=1.2, tau=dt * d, rand_nbs=S, method=method, **p)
            if not ok:
                continue
            if not rec.check(y.shape == (d + 1, 2, S.shape[2]), 'shape', dict(case0, depth=d), lambda: repr(y.shape)):
                continue
            rec.check(np.array_equal(s0, S), 'mutated', dict(case0, depth=d), 'shocks modified')
            tree = {(): (1.2, p['var0'], p['var0'])}
            for s, seq in enumerate(itertools.product(range(len(alpha)), repeat=d)):
                rec.bulk_states += 1
                rec.step(d)
                rec.trace()
                for i in range(d):
                    k = seq[:i + 1]
                    if k not in tree:
                        z = alpha[k[-1]]
                        x, v, _ = tree[k[:-1]]
                        c = z @ M
                        tree[k] = step(method, x, v, p, dt, z[0], z[1], c[0], c[1])
                    x, v, _ = tree[k]
                    if i < d - 1 and method != METHODS[0]:
                        v = max(v, 0) if 'absorption' in method else abs(v)
                    g, h = y[i + 1, 0, s], y[i + 1, 1, s]
                    case = dict(case0, shocks=[alpha[j] for j in seq], step=i)
                    if not rec.check(abs(g - x) <= max(1e-9 * abs(x), 1e-11) and (abs(h - v) <= 1e-9 * max(abs(v), 1e-4) or (i < d - 1 and method != METHODS[0] and abs(h - tree[k][1]) <= 1e-11)), 'heston', case, lambda: '%r want %r' % ((g, h), (x, v))):
                        break
            if d <= 2:
                for s in range(0, S.shape[2]):
                    ok, w = rec.call('raises_scalar', dict(case0, depth=d), heston_simulate_scalar, S0=1.2, tau=dt * d, rand_nbs=S[:, :, s], method=method, **p)
                    if ok:
                        rec.bulk_states += 1
                        rec.check(np.shape(w) == (d + 1, 2) and np.allclose(w, y[:, :, s], rtol=1e-10, atol=1e-12), 'scalar', dict(case0, shocks=S[:, :, s].tolist()), lambda: '%r vectorised %r' % (w.tolist(), y[:, :, s].tolist()))
        rec.outcome(repr(sorted(p.items())), method)


CURVES = {'flat': lambda t: 50 + 0 * t, 'contango': lambda t: 50 * np.exp(0.02 * t), 'bumpy': lambda t: 50 + 7 * np.cos(2.1 * t) + t}


def recursion(curve, T, seg, a, s, z):
    """one day after another; z has shape (T*seg, simulations)"""
    dt = 1 / seg
    days = CURVES[curve](np.arange(T + 2.0))
    f = [math.log(days[int(i // seg)] + (days[int(i // seg) + 1] - days[int(i // seg)]) * (i % seg) / seg) for i in range(T * seg + 1)]
    x = np.full(z.shape[1], f[0])
    out = [np.exp(x)]
    for i in range(T * seg):
        drift = (f[i + 1] - f[i]) / dt + a * (f[i] - x) - 0.25 * s * s * (1 + math.exp(-2 * a * i * dt))
        x = x + drift * dt + s * math.sqrt(dt) * z[i]
        if (i + 1) % seg == 0:
            out.append(np.exp(x))
    return np.array(out)


def simulate(curve, T, seg, a, s, n):
    t = np.arange(T + 2.0)
    return cs.clewlow_strickland_1_factor_simulate(forward_curve=np.column_stack([t, CURVES[curve](t)]), nb_simulations=n, segments_per_day=seg, T=T, alpha=a, sigma=s)


def recover(T, seg, n, rec, case):
    """shocks of every segment from runs that differ in the mean reversion only (a linear system per day)"""
    al = [0.0, 0.3, 0.6][:seg]
    runs = []
    for a in al:
        ok, x = rec.call('raises', dict(case, alpha=a), simulate, 'flat', T, seg, a, 0.1, n)
        if not ok or not rec.check(np.shape(x) == (T + 1, n), 'shape', case, lambda: repr(np.shape(x))):
            return None
        runs.append(x)
    z = np.zeros((T * seg, n))
    for d in range(T):
        base = [np.log(recursion('flat', d + 1, seg, a, 0.1, z[:(d + 1) * seg])[-1]) for a in al]
        A = np.array([[0.1 * math.sqrt(1 / seg) * (1 - a / seg) ** (seg - 1 - i) for i in range(seg)] for a in al])
        z[d * seg:(d + 1) * seg] = np.linalg.solve(A, np.array([np.log(r[d + 1]) - b for r, b in zip(runs, base)]))
    return z


def do_clewlow(u, rec):
    seg, T, n = u['seg'], 4, 300
    z = recover(T, seg, n, rec, u)
    if z is None:
        return
    m = z.size
    rec.check(abs(z.mean()) < 5 / math.sqrt(m) and abs((z ** 2).mean() - 1) < 5 * math.sqrt(2 / m), 'shocks', u, lambda: 'shocks recovered from the paths have mean %r and variance %r' % (z.mean(), (z ** 2).mean()))
    rec.check(len(np.unique(np.round(z, 9))) == m, 'shocks', u, 'shocks repeated between steps or simulations')
    for curve, a, s, TT in itertools.product(CURVES, (0.0, 0.06, 0.5, 0.9), (0.01, 0.04, 0.3), (T,)):
        case = dict(curve=curve, alpha=a, sigma=s, T=TT, segments=seg)
        rec.state(repr(case))
        ok, x = rec.call('raises', case, simulate, curve, TT, seg, a, s, n)
        if ok:
            rec.trace(n)
            rec.bulk_states += n - 1
            w = recursion(curve, TT, seg, a, s, z)
            rec.outcome(repr(w[-1, 0]))
            rec.check(np.shape(x) == w.shape and np.allclose(x, w, rtol=1e-6, atol=0), 'clewlow', case, lambda: 'first simulation %r want %r' % (x[:, 0], w[:, 0]))


def do_loops(u, rec):
    """the simulations are split over loops when memory is limited: nothing may be lost or repeated"""
    if not hasattr(cs, 'MAX_SIMULATIONS_PER_LOOP'):
        rec.outcome('no limit')
        return
    old = cs.MAX_SIMULATIONS_PER_LOOP
    try:
        for lim, n in itertools.product((4, 8, 11, 12, 20, 40), range(1, 11)):
            cs.MAX_SIMULATIONS_PER_LOOP = lim
            case = dict(limit=lim, simulations=n)
            rec.state(repr(case))
            z = recover(4, 1, n, rec, case)
            if z is not None:
                rec.trace()
                rec.outcome(lim, n)
                rec.check(np.isfinite(z).all() and np.abs(z).max() < 6 and len(np.unique(np.round(z, 9))) == z.size, 'loops', case, 'simulations missing or repeated')
    finally:
        cs.MAX_SIMULATIONS_PER_LOOP = old


def do_reject(u, rec):
    p = dict(S0=1.2, mu=0.0, var0=0.01, vv=0.2, kappa=1.5, theta=0.02, rho=0.1, tau=1.0)
    for m in ('euler', 'QE', '', 'euler_with', None):
        for f, z in ((heston_simulate, np.zeros((2, 2, 2))), (heston_simulate_scalar, np.zeros((2, 2)))):
            rec.step()
            rec.state(m, f.__name__)
            try:
                f(rand_nbs=z, method=m, **p)
                rec.fail('bad_method', dict(method=m, fn=f.__name__), 'accepted')
            except Exception:
                rec.outcome('rejected')
    g = dict(initial_px=np.array([1.2]), drift=np.zeros(3), forward_volatility=np.full(3, 0.1), timestep_length=np.ones(3), rand_nbs=np.zeros((3, 1, 2)))
    for bad in (dict(drift=np.zeros(2)), dict(forward_volatility=np.zeros(4)), dict(rand_nbs=np.zeros((2, 1, 2))), dict(rand_nbs=np.zeros((3, 2, 2))), dict(initial_px=np.array([1.2, 1.3]))):
        rec.step()
        rec.state(repr(bad))
        try:
            simulate_gbm_path(**dict(g, **bad))
            rec.fail('bad_shape', dict(bad=list(bad)), 'accepted')
        except Exception:
            rec.outcome('rejected')
