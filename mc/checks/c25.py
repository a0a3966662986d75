"""C25: random numbers have the requested shape, are reproducible per seed, pair antithetically, and correlate exactly as the matrix asks."""
import itertools, math
import numpy as np
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs as gen, normal_corr

BOUNDS = {
    'quick': 'every (steps 1..4) x (variables 1..3) x (simulations 1..9) x antithetic x 4 seeds, two histories of calls between; moments of 4 large draws; every 2x2 and 3x3 correlation matrix with entries in a grid of 9, applied to '
             'basis vectors and to arrays of 2 and 3 dimensions; invalid arguments one at a time',
    'thorough': 'steps to 8, variables to 5, simulations to 21, 11 seeds; 3x3 and 4x4 matrices with 13 and 5 entries'}
ASSUMPTIONS = ['moments of a large fixed-seed draw within 5 standard errors']


def units(tier):
    q = tier == 'quick'
    return [dict(kind='draw', steps=s, tier=tier) for s in range(1, 5 if q else 9)] + [dict(kind='moments')] + \
        [dict(kind='corr', n=n, r=r, tier=tier) for n in (2, 3) for r in grid(tier)] + ([dict(kind='corr', n=4, r=r, tier=tier) for r in (-0.8, -0.3, 0.0, 0.3, 0.8)] if not q else []) + [dict(kind='reject')]


def grid(tier):
    return [-0.999, -0.9, -0.5, -0.2, 0.0, 0.3, 0.7, 0.95, 0.999] if tier == 'quick' else [-0.9999, -0.999, -0.9, -0.7, -0.5, -0.2, 0.0, 0.1, 0.3, 0.5, 0.7, 0.95, 0.999]


def run_unit(u, rec):
    globals()['do_' + u['kind']](u, rec)
    rec.sample(u)


def do_draw(u, rec):
    q = u['tier'] == 'quick'
    s = u['steps']
    for nv, ns, anti in itertools.product(range(1, 4 if q else 6), range(1, 10 if q else 22), (False, True)):
        if anti and ns == 1:
            continue
        seen = {}
        for seed in (0, 1, 7, 12345) if q else (0, 1, 2, 3, 7, 11, 42, 100, 999, 12345, 2 ** 31):
            case = dict(steps=s, variables=nv, simulations=ns, antithetic=anti, seed=seed)
            rec.state(repr(case))
            ok, a = rec.call('raises', case, gen, nb_steps=s, nb_rand_vars=nv, nb_simulations=ns, apply_antithetic_variates=anti, random_seed=seed)
            if not ok:
                continue
            rec.trace()
            if not rec.check(np.shape(a) == (s, nv, ns), 'shape', case, lambda: 'shape %r' % (np.shape(a),)):
                continue
            rec.check(np.isfinite(a).all() and len(np.unique(np.abs(a))) == (s * nv * ((ns + 1) // 2) if anti else s * nv * ns), 'distinct', case, 'numbers repeated, missing or not finite')
            if anti:
                for i in range(ns // 2):
                    rec.check(np.allclose(a[:, :, 2 * i], -a[:, :, 2 * i + 1], rtol=1e-12, atol=1e-14), 'antithetic', dict(case, pair=i), 'simulations %d and %d are not mirrored' % (2 * i, 2 * i + 1))
            key = a.tobytes()
            rec.check(key not in seen, 'seed', case, 'same numbers as another seed')
            seen[key] = seed
            rec.outcome(key[:16])
            np.random.seed(99)
            np.random.normal(size=5)
            gen(2, 1, 3, False, 5)
            b = gen(nb_steps=s, nb_rand_vars=nv, nb_simulations=ns, apply_antithetic_variates=anti, random_seed=seed)
            rec.step()
            rec.check((a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-14)), 'reproducible', case, 'a second call with the same seed differs')


def do_moments(u, rec):
    for s, nv, ns, anti in itertools.product((1, 5), (1, 2), (20000, 20001), (False, True)):
        case = dict(steps=s, variables=nv, simulations=ns, antithetic=anti)
        rec.state(repr(case))
        ok, a = rec.call('raises', case, gen, s, nv, ns, anti)
        if not ok:
            continue
        rec.trace()
        m = ns // 2 if anti else ns
        for i, j in itertools.product(range(s), range(nv)):
            x = a[i, j]
            rec.check(abs(x.mean()) < 5 / math.sqrt(ns) and abs((x ** 2).mean() - 1) < 5 * math.sqrt(2 / m) and abs((x ** 4).mean() - 3) < 5 * math.sqrt(96 / m), 'moments', dict(case, step=i, var=j), lambda: '%r %r' % (x.mean(), (x ** 2).mean()))
            for k, l in itertools.product(range(s), range(nv)):
                if (k, l) > (i, j):
                    rec.check(abs((x * a[k, l]).mean()) < 5 / math.sqrt(m), 'independent', dict(case, a=[i, j], b=[k, l]), 'correlated draws')


def do_corr(u, rec):
    n = u['n']
    g = grid(u['tier']) if n < 4 else (-0.8, -0.3, 0.0, 0.3, 0.8)
    pairs = list(itertools.combinations(range(n), 2))
    sims = np.linspace(-2, 2, 7 * 5 * n).reshape(5, n, 7)
    for rest in itertools.product(g, repeat=len(pairs) - 1):
        C = np.eye(n)
        for (i, j), r in zip(pairs, (u['r'],) + rest):
            C[i, j] = C[j, i] = r
        ev = np.linalg.eigvalsh(C)[0]
        case = dict(C=C.tolist())
        rec.state(repr(case))
        if ev < -1e-9:
            rec.step()
            try:
                normal_corr(C, np.eye(n))
                rec.fail('indefinite', case, 'accepted a matrix that is no correlation matrix')
            except Exception:
                rec.outcome('rejected')
            continue
        if ev < 1e-7:
            continue
        c0 = C.copy()
        ok, A = rec.call('raises', case, normal_corr, C, np.eye(n))
        if not ok:
            continue
        rec.trace()
        # row k of A is the image of the k-th unit shock, so the covariance of the output is A'A
        rec.check(np.allclose(A.T @ A, C, atol=1e-12), 'covariance', case, lambda: 'covariance of the correlated numbers %r' % (A.T @ A).tolist())
        rec.check(np.array_equal(c0, C), 'mutated', case, 'correlation matrix modified')
        s0 = sims.copy()
        ok, B = rec.call('raises', case, normal_corr, C, sims)
        if ok:
            w = np.einsum('tks,kj->tjs', sims, A)
            rec.check(np.shape(B) == sims.shape and np.allclose(B, w, atol=1e-12), 'layout', case, 'three dimensional array not correlated per step and simulation')
            rec.check(np.array_equal(s0, sims), 'mutated', case, 'shocks modified')
    rec.outcome(n, u['r'])


def do_reject(u, rec):
    for bad in (dict(nb_steps=0), dict(nb_steps=1.5), dict(nb_steps=-1), dict(nb_rand_vars=0), dict(nb_simulations=0), dict(nb_simulations=2.0), dict(nb_simulations=1, apply_antithetic_variates=True), dict(apply_antithetic_variates=1),
                dict(nb_steps=10 ** 5, nb_simulations=10 ** 5)):
        rec.step()
        rec.state(repr(bad))
        try:
            gen(**dict(dict(nb_steps=2, nb_rand_vars=1, nb_simulations=4), **bad))
            rec.fail('bad_input', dict(bad=bad), 'accepted')
        except Exception:
            rec.outcome('rejected')
