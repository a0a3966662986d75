"""C20: implied volatilities and volatility conversions reprice the option, or are rejected when no volatility can."""
import itertools, math
import numpy as np
from frm.pricing_engine.black76_bachelier import (black76_solve_implied_vol, bachelier_solve_implied_vol, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, shift_black76_vol, normal_vol_to_black76_sln,
                                                  normal_vol_atm_to_black76_sln_atm)
from mc.ref.options import black, bachelier

BOUNDS = {
    'quick': 'implied vols: 3 forwards x 10 strikes x 5 expiries x 8 vols x call/put x 2 shifts x 2 annuity factors x 2 starting guesses (Black76 and Bachelier), strips of 2-3 options with one common volatility, unattainable prices; '
             'conversions (log-normal to normal, normal to log-normal, shift to shift, at-the-money closed forms, analytical approximation) on the same grid and back again',
    'thorough': 'as quick with 25 strikes, 9 expiries, 14 vols, 4 guesses'}
ASSUMPTIONS = ['out-of-the-money prices above 1e-9 of the forward (below that the solve is ill-conditioned)', 'solver tolerance is the documented 0.001% of the price', 'volatilities inside the documented bounds']
TOL = 1.05e-5


def grids(tier):
    if tier == 'quick':
        return [0.5, 0.8, 0.95, 0.999, 1, 1.00015, 1.001, 1.05, 1.25, 2], [1 / 52, 0.25, 1, 5, 20], [0.01, 0.03, 0.1, 0.2, 0.35, 0.6, 1, 2.5]
    return [0.4 + 0.075 * i for i in range(24)] + [1, 1.00015], [1 / 52, 1 / 12, 0.25, 0.5, 1, 2, 5, 10, 20], [0.01, 0.02, 0.03, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.6, 0.8, 1, 1.5, 2.5]


def units(tier):
    M, TAU, VOL = grids(tier)
    u = [dict(kind=k, F=F, tau=t, tier=tier) for F in (0.03, 1.3, -0.002) for t in TAU for k in ('black', 'bach', 'convert')]
    return u + [dict(kind='strip', tier=tier), dict(kind='reject', tier=tier)]


def shifts(F):
    return [s for s in (0.0, 0.02) if F + s > 0]


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def do_black(u, rec):
    M, _, VOL = grids(u['tier'])
    F, tau = u['F'], u['tau']
    for s, m, v, cp, ann, guess in itertools.product(shifts(F), M, VOL, (1, -1), (1, 0.21), (0.1, 0.8) if u['tier'] == 'quick' else (0.1, 0.8, 0.01, 5)):
        f = F + s
        K = f * m - s
        otm = black(F, K, tau, v, 1 if K >= F else -1, s)[0]
        if otm < 1e-9 * f or v * math.sqrt(tau) > 7:
            continue
        X = black(F, K, tau, v, cp, s, ann)[0]
        case = dict(F=F, K=K, tau=tau, vol=v, cp=cp, shift=s, annuity=ann, guess=guess)
        rec.state(repr(case))
        ok, iv = rec.call('raises', case, black76_solve_implied_vol, F=F, tau=tau, cp=cp, K=K, ln_shift=s, X=X, vol_sln_guess=guess, annuity_factor=ann)
        if ok:
            iv = float(iv)
            p = black(F, K, tau, iv, cp, s, ann)[0]
            rec.trace()
            rec.check(abs(p / X - 1) <= TOL, 'black_implied', case, lambda: 'vol %r gives price %r, want %r' % (iv, p, X))
            rec.outcome(round(iv, 6))


def do_bach(u, rec):
    M, _, VOL = grids(u['tier'])
    F, tau = u['F'], u['tau']
    unit = abs(F) if abs(F) < 0.5 else 0.2
    unit = max(unit, 0.02)
    for m, v, cp, ann, guess in itertools.product(M, VOL, (1, -1), (1, 0.21), (0.01, 0.3) if u['tier'] == 'quick' else (0.01, 0.3, 0.001, 0.9)):
        K, vn = F + (m - 1) * unit, v * unit
        if bachelier(F, K, tau, vn, 1 if K >= F else -1)[0] < 1e-9 * unit or not 1e-4 < vn < 1:
            continue
        X = bachelier(F, K, tau, vn, cp, ann)[0]
        case = dict(F=F, K=K, tau=tau, vol_n=vn, cp=cp, annuity=ann, guess=guess)
        rec.state(repr(case))
        ok, iv = rec.call('raises', case, bachelier_solve_implied_vol, F=F, tau=tau, cp=cp, K=K, X=X, vol_n_guess=guess, annuity_factor=ann)
        if ok:
            iv = float(iv)
            p = bachelier(F, K, tau, iv, cp, ann)[0]
            rec.trace()
            rec.check(abs(p / X - 1) <= TOL, 'bachelier_implied', case, lambda: 'vol %r gives price %r, want %r' % (iv, p, X))
            rec.outcome(round(iv, 6))


def do_convert(u, rec):
    M, _, VOL = grids(u['tier'])
    F, tau = u['F'], u['tau']
    for s, m, v in itertools.product(shifts(F), M, VOL):
        f = F + s
        K = f * m - s if m != 1 else F
        cp = 1 if K >= F else -1
        X = black(F, K, tau, v, cp, s)[0]
        sd = v * math.sqrt(tau)
        if X < 1e-9 * f or sd > 2.5:
            continue
        case = dict(F=F, K=K, tau=tau, vol=v, shift=s)
        rec.state(repr(case))

        def agree(kind, p, extra):
            rec.trace()
            rec.check(abs(p / X - 1) <= 2.1e-5, kind, dict(case, **extra), lambda: 'converted vol prices the out-of-the-money option at %r, want %r' % (p, X))
        if v * f < 0.6:
            ok, vn = rec.call('raises', dict(case, conv='sln->n'), black76_sln_to_normal_vol, F=F, tau=tau, K=K, vol_sln=v, ln_shift=s)
            if ok:
                vn = float(vn)
                agree('sln_to_normal', bachelier(F, K, tau, vn, cp)[0], dict(vol_n=vn))
                ok, vb = rec.call('raises', dict(case, conv='n->sln', vol_n=vn), normal_vol_to_black76_sln, F=F, tau=tau, K=K, vol_n=vn, ln_shift=s)
                if ok:
                    agree('normal_to_sln', black(F, K, tau, float(vb), cp, s)[0], dict(vol_n=vn, vol_sln=float(vb)))
                if abs(math.log(m)) < 0.3 and sd < 0.5:
                    rec.step()
                    va = float(np.asarray(black76_sln_to_normal_vol_analytical(F=F, tau=tau, K=K, vol_sln=v, ln_shift=s)))
                    rec.check(abs(va / vn - 1) < 2e-4 + 0.02 * sd ** 4 + 0.2 * abs(math.log(m)) ** 4, 'analytical', case, lambda: 'approximation %r, exact %r' % (va, vn))
                if m == 1:
                    w = math.sqrt(2 * math.pi / tau) * X
                    rec.check(abs(vn / w - 1) < 1e-9, 'atm_closed_form', case, lambda: '%r want %r' % (vn, w))
                    ok, vb = rec.call('raises', case, normal_vol_atm_to_black76_sln_atm, F=F, tau=tau, vol_n_atm=w, ln_shift=s)
                    rec.check(ok and abs(float(vb) / v - 1) < 1e-7, 'atm_closed_form', case, lambda: '%r want %r' % (vb, v))
                    ok, vb = rec.call('raises', case, normal_vol_to_black76_sln, F=F, tau=tau, K=K, vol_n=w, ln_shift=s)
                    rec.check(ok and abs(float(vb) / v - 1) < 1e-7, 'atm_closed_form', case, lambda: '%r want %r' % (vb, v))
        for to in shifts(F) + [0.05]:
            if F + to <= 0 or K + to <= 0 or not black(F, K, tau, 0.0011, cp, to)[0] < X < black(F, K, tau, 9.9, cp, to)[0] * 0.999999:
                continue
            ok, vs = rec.call('raises', dict(case, to=to), shift_black76_vol, F=F, tau=tau, K=K, vol_sln=v, from_ln_shift=s, to_ln_shift=to)
            if ok:
                agree('shift', black(F, K, tau, float(vs), cp, to)[0], dict(to=to, vol_sln=float(vs)))
                rec.outcome(round(float(vs), 6))
                if to == s:
                    rec.check(abs(float(vs) - v) <= 1e-5 * X / black(F, K, tau, v, cp, s)[2] * 1.1 + 1e-9, 'shift_identity', case, lambda: str(vs))


def do_strip(u, rec):
    Fs, Ks, T, A = [0.03, 0.034, 0.028], [0.03, 0.04, 0.02], [0.25, 0.5, 0.75], [0.25, 0.24, 0.23]
    for n in (2, 3):
        for v, s, cp, common in itertools.product((0.05, 0.2, 0.6), (0.0, 0.02), (1, -1), (False, True)):
            K = [0.031] * n if common else Ks[:n]
            X = sum(black(f, k, t, v, cp, s, a)[0] for f, k, t, a in zip(Fs[:n], K, T, A))
            case = dict(n=n, vol=v, shift=s, cp=cp, common_strike=common)
            rec.state(repr(case))
            arr = [np.array(x[:n]) for x in (Fs, T, A)]
            Kx = 0.031 if common else np.array(K)
            ok, iv = rec.call('raises', case, black76_solve_implied_vol, F=arr[0], tau=arr[1], cp=cp, K=Kx, ln_shift=s, X=X, annuity_factor=arr[2])
            if ok:
                p = sum(black(f, k, t, float(iv), cp, s, a)[0] for f, k, t, a in zip(Fs[:n], K, T, A))
                rec.trace()
                rec.check(abs(p / X - 1) <= TOL, 'strip', case, lambda: 'vol %r gives %r want %r' % (iv, p, X))
            vn = v * 0.03
            X = sum(bachelier(f, k, t, vn, cp, a)[0] for f, k, t, a in zip(Fs[:n], K, T, A))
            ok, iv = rec.call('raises', case, bachelier_solve_implied_vol, F=arr[0], tau=arr[1], cp=cp, K=Kx, X=X, annuity_factor=arr[2])
            if ok:
                p = sum(bachelier(f, k, t, float(iv), cp, a)[0] for f, k, t, a in zip(Fs[:n], K, T, A))
                rec.trace()
                rec.check(abs(p / X - 1) <= TOL, 'strip', case, lambda: 'vol %r gives %r want %r' % (iv, p, X))
    # vectorised closed form
    f, t, v = np.array([0.03, 0.02, 0.05]), np.array([0.5, 1, 7]), np.array([0.006, 0.004, 0.012])
    g = normal_vol_atm_to_black76_sln_atm(F=f, tau=t, vol_n_atm=v, ln_shift=0.01)
    for i in range(3):
        p = black(f[i], f[i], t[i], g[i], 1, 0.01)[0]
        rec.check(abs(p / bachelier(f[i], f[i], t[i], v[i], 1)[0] - 1) < 1e-9, 'atm_closed_form', dict(i=i), 'vector form wrong')


def do_reject(u, rec):
    M, TAU, _ = grids(u['tier'])
    for m, tau, cp in itertools.product(M, TAU, (1, -1)):
        F, K = 0.03, 0.03 * m
        lo = max(0, cp * (F - K))
        hi = F if cp == 1 else K
        for X in ([lo * 0.9] if lo else []) + [hi * 1.001, hi * 3]:
            case = dict(F=F, K=K, tau=tau, cp=cp, X=X)
            rec.state(repr(case))
            rec.step()
            try:
                iv = black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=0.0, X=X)
                rec.fail('unattainable', case, 'volatility %r returned for an unattainable price' % iv)
            except Exception:
                rec.outcome('rejected')
        big = bachelier(F, K, tau, 1.0, cp)[0] * 1.01
        for X in ([lo * 0.9] if lo else []) + [big]:
            case = dict(F=F, K=K, tau=tau, cp=cp, X=X, model='bachelier')
            rec.state(repr(case))
            rec.step()
            try:
                iv = bachelier_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, X=X)
                rec.fail('unattainable', case, 'volatility %r returned for an unattainable price' % iv)
            except Exception:
                rec.outcome('rejected')
