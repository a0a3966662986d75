"""C02: container/broadcast independence, order preservation, additivity, rejection of reversed dates, inputs untouched."""
import datetime as dt, itertools
import numpy as np, pandas as pd
from frm.utils.daycount import day_count, year_frac
from frm.enums import DayCountBasis
from mc.ref.dates import BASES, ref_days, ref_years, DENOM

BOUNDS = {
    'quick': '12-date boundary alphabet; all ordered pairs x (7x7 scalar/len-1/vector container kinds) x 7 bases; all vector pairs of length 2 over the '
             'alphabet with scalar-vector broadcasting; all ordered date triples for additivity; all reversed pairs',
    'thorough': '20-date alphabet, vectors of length up to 3'}
ASSUMPTIONS = ['termination flag default: last element of the end vector (documented)']

A12 = ['2019-12-31', '2020-01-01', '2020-01-30', '2020-01-31', '2020-02-28', '2020-02-29', '2020-03-01', '2020-12-31',
       '2021-02-28', '2021-03-31', '2024-02-29', '2025-07-15']
A20 = A12 + ['2018-05-30', '2020-06-30', '2021-01-01', '2021-10-31', '2022-11-30', '2023-02-27', '2100-02-28', '2000-02-29']
D = lambda s: dt.date.fromisoformat(s)

SCALARS = {
    'Timestamp': lambda d: pd.Timestamp(d),
    'datetime': lambda d: dt.datetime(d.year, d.month, d.day),
    'date': lambda d: d,
    'datetime64': lambda d: np.datetime64(d.isoformat()),
    'dti1': lambda d: pd.DatetimeIndex([pd.Timestamp(d)]),
    'list1': lambda d: [pd.Timestamp(d)],
    'series1': lambda d: pd.Series([pd.Timestamp(d)], index=[7]),
}
VECS = {
    'dti': lambda ds: pd.DatetimeIndex([pd.Timestamp(d) for d in ds]),
    'series': lambda ds: pd.Series([pd.Timestamp(d) for d in ds]),
    'series_oddindex': lambda ds: pd.Series([pd.Timestamp(d) for d in ds], index=[5, 3, 9, 1][:len(ds)]),
    'list': lambda ds: [pd.Timestamp(d) for d in ds],
    'list_of_dates': lambda ds: list(ds),
}


def alpha(tier):
    return sorted(A12 if tier == 'quick' else A20)


def units(tier):
    al = alpha(tier)
    L = 2 if tier == 'quick' else 3
    out = [dict(kind='scalar', basis=b, alpha=al) for b in BASES]
    out += [dict(kind='triples', basis=b, alpha=al) for b in BASES]
    out += [dict(kind='vector', basis=b, alpha=al[::1] if L == 2 else al[::2], L=L, vk=vk) for b in BASES for vk in VECS]
    return out


def compare(rec, case, basis, b, s_arg, e_arg, S, E, flags, kw):
    for what, fn, ref in (('days', day_count, ref_days), ('years', year_frac, ref_years)):
        ok, got = rec.call('raises', dict(case, what=what), fn, s_arg, e_arg, basis, **kw)
        if not ok:
            continue
        want = [ref(b, s, e, t) for s, e, t in zip(S, E, flags)]
        got = np.atleast_1d(np.asarray(got, dtype=float))
        rec.traces += 1
        if got.shape != (len(want),):
            rec.fail('shape', dict(case, what=what), 'result shape %s for %d pairs' % (got.shape, len(want)))
        elif not np.allclose(got, want, rtol=0, atol=1e-12):
            rec.fail('value', dict(case, what=what), 'got %s want %s' % (got.tolist(), want))
        rec.outcome(b, what, tuple(np.round(want, 6)))


def run_unit(u, rec):
    b = u['basis']
    basis = DayCountBasis[b]
    al = [D(x) for x in u['alpha']]
    if u['kind'] == 'scalar':
        for s, e in itertools.combinations_with_replacement(al, 2):
            for k1, k2 in itertools.product(SCALARS, SCALARS):
                case = dict(basis=b, start=str(s), end=str(e), c1=k1, c2=k2)
                rec.state(b, str(s), str(e), k1, k2)
                for flag in ((None, False, True) if b == '_30E_360_ISDA' and k1 == k2 else (None,)):
                    kw = {} if flag is None else dict(is_end_date_on_termination=flag)
                    compare(rec, dict(case, flag=str(flag)), basis, b, SCALARS[k1](s), SCALARS[k2](e), [s], [e], [True if flag is None else flag], kw)
            if s < e:
                for fn in (day_count, year_frac):
                    rec.step()
                    S, E = pd.Timestamp(s), pd.Timestamp(e)
                    I = pd.DatetimeIndex
                    for a1, a2 in ((E, S), (I([S, E]), S), (I([E, S]), S), (E, I([E, S])), (E, I([S, E])), (I([S, E]), I([S, S])), (I([E, S]), I([S, E]))):
                        try:
                            r = fn(a1, a2, basis)
                            rec.fail('reversed_accepted', dict(basis=b, start=str(e), end=str(s), fn=fn.__name__), 'returned %r for start > end' % (r,))
                        except Exception:
                            pass
        rec.sample(dict(basis=b, pair=[str(al[0]), str(al[1])]))
    elif u['kind'] == 'triples':
        for a, m, c in itertools.combinations_with_replacement(al, 3):
            ta, tm, tc = map(pd.Timestamp, (a, m, c))
            case = dict(basis=b, a=str(a), m=str(m), c=str(c))
            rec.state('t', b, str(a), str(m), str(c))
            if b.startswith('ACT'):
                ok, v = rec.call('raises', case, lambda: (day_count(ta, tm, basis), day_count(tm, tc, basis), day_count(ta, tc, basis),
                                                          year_frac(ta, tm, basis), year_frac(tm, tc, basis), year_frac(ta, tc, basis)))
                if ok:
                    rec.step(5)
                    rec.traces += 1
                    rec.check(v[0] + v[1] == v[2], 'additive_days', case, 'days %s' % (v[:3],))
                    rec.check(abs(v[3] + v[4] - v[5]) < 1e-12, 'additive_years', case, 'years %s' % (v[3:],))
            else:
                ok, v = rec.call('raises', case, lambda: (day_count(ta, tm, basis, False), day_count(ta, tc, basis, False),
                                                          year_frac(ta, tm, basis, False), year_frac(ta, tc, basis, False)))
                if ok:
                    rec.step(3)
                    rec.traces += 1
                    rec.check(v[0] <= v[1] and v[2] <= v[3] + 1e-12, 'monotone', case, 'later end date gives smaller value %s' % (v,))
    else:
        L, vk = u['L'], u['vk']
        for E in itertools.product(al[2:], repeat=L):
            lo = min(E)
            for S in ([x for x in itertools.product(al, repeat=L) if all(p <= q for p, q in zip(x, E))] if L == 2 else
                      [tuple(al[(i + j) % 3] for j in range(L)) for i in range(3)]):
                if L == 2 and (al.index(S[0]) + al.index(S[1]) + al.index(E[0])) % 5 and vk != 'dti':
                    continue        # the full product is enumerated for the DatetimeIndex container, 1/5 for the other container kinds
                if any(p > q for p, q in zip(S, E)):
                    continue
                case = dict(basis=b, starts=list(map(str, S)), ends=list(map(str, E)), c=vk)
                rec.state('v', b, vk, S, E)
                s_arg, e_arg = VECS[vk](S), VECS[vk](E)
                before = [str(x) for x in s_arg], [str(x) for x in e_arg]
                compare(rec, case, basis, b, s_arg, e_arg, S, E, [False] * (L - 1) + [True], {})
                after = [str(x) for x in s_arg], [str(x) for x in e_arg]
                rec.check(before == after, 'input_modified', case, 'arguments changed')
            # scalar start broadcast, scalar end broadcast, explicit flags
            s0 = min(al[0], lo)
            for sk in ('Timestamp', 'date'):
                compare(rec, dict(basis=b, start=str(s0), ends=list(map(str, E)), c=vk, bc='start'), basis, b, SCALARS[sk](s0), VECS[vk](E), [s0] * L, E,
                        [False] * (L - 1) + [True], {})
            hi = al[-1]
            compare(rec, dict(basis=b, starts=list(map(str, E)), end=str(hi), c=vk, bc='end'), basis, b, VECS[vk](E), SCALARS['Timestamp'](hi), E, [hi] * L,
                    [False] * (L - 1) + [True], {})
            rec.state('bc', b, vk, E)
            if b == '_30E_360_ISDA':
                for flags in list(itertools.product([False, True], repeat=L)):
                    compare(rec, dict(basis=b, start=str(s0), ends=list(map(str, E)), c=vk, flags=list(flags)), basis, b, SCALARS['Timestamp'](s0), VECS[vk](E),
                            [s0] * L, E, flags, dict(is_end_date_on_termination=np.array(flags)))
                for f in (False, True):
                    compare(rec, dict(basis=b, start=str(s0), ends=list(map(str, E)), c=vk, flags=f), basis, b, SCALARS['Timestamp'](s0), VECS[vk](E),
                            [s0] * L, E, [f] * L, dict(is_end_date_on_termination=f))
        rec.sample(dict(basis=b, container=vk))
