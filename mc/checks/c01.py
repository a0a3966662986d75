"""C01: every (start, end, basis, termination flag) of a date window / boundary alphabet against the ISDA definition."""
from datetime import date, timedelta
import numpy as np, pandas as pd
from frm.utils.daycount import day_count, year_frac
from frm.enums import DayCountBasis
from mc.ref.dates import BASES, DateTable, ref_days_vec, ref_years_vec, dim

BOUNDS = {
    'quick': 'all ordered date pairs in 3 contiguous windows (about 430 days each, spanning leap/non-leap/century years) and all ordered pairs of the '
             'month-boundary alphabet (days 1,2,15,27..31 of every month) over 1999-2004; 7 bases; termination flag None/False/True; every ordered pair of a 47-date month-end alphabet as a scalar period',
    'thorough': 'all ordered date pairs of 1999-12..2005-01, of 2022..2025 and of 2099..2101; month-boundary alphabet 1995-2030; 7 bases; flags None/False/True'}
ASSUMPTIONS = ['dates carry no time of day', 'vector call: the last element of the end vector is the termination date unless flags are given (documented convention)']


def window(a, b):
    return [a + timedelta(i) for i in range((b - a).days + 1)]


def boundary(y0, y1):
    return [date(y, m, d) for y in range(y0, y1 + 1) for m in range(1, 13) for d in (1, 2, 15, 27, 28, 29, 30, 31) if d <= dim(y, m)]


SETS = {
    'w2019': lambda: window(date(2019, 12, 1), date(2021, 3, 2)),
    'w2023': lambda: window(date(2022, 12, 25), date(2024, 3, 5)),
    'w1900': lambda: window(date(1899, 12, 20), date(1900, 3, 5)) + window(date(2000, 2, 20), date(2001, 1, 5)),
    'w2100': lambda: window(date(2099, 12, 20), date(2101, 1, 5)),
    'b1999': lambda: boundary(1999, 2004),
    'bfar': lambda: boundary(1999, 2000) + boundary(2040, 2040),
    'W1999': lambda: window(date(1999, 12, 1), date(2005, 1, 5)),
    'W2022': lambda: window(date(2022, 1, 1), date(2025, 12, 31)),
    'W2099': lambda: window(date(2099, 1, 1), date(2101, 12, 31)),
    'B1995': lambda: boundary(1995, 2030),
}


def units(tier):
    names = ['w2019', 'w2023', 'w1900', 'w2100', 'b1999', 'bfar']
    if tier == 'thorough':
        names += ['W1999', 'W2022', 'W2099', 'B1995']
    out = []
    for n in names:
        size = len(SETS[n]())
        step = 120 if size < 800 else 40
        for lo in range(0, size, step):
            out.append(dict(set=n, lo=lo, hi=min(size, lo + step)))
    ns = len(scalars(tier))
    out += [dict(kind='scalar', lo=lo, hi=min(ns, lo + 6), tier=tier) for lo in range(0, ns, 6)]
    return out


def scalars(tier):
    days = (1, 28, 29, 30, 31) if tier == 'quick' else (1, 2, 15, 27, 28, 29, 30, 31)
    return [date(y, m, d) for y in ((2023, 2024) if tier == 'quick' else (2023, 2024, 2025)) for m in ((1, 2, 3, 8, 12) if tier == 'quick' else range(1, 13)) for d in days if d <= dim(y, m)]


def do_scalar(u, rec):
    """A single period given as two timestamps: its end date is the termination date unless the flag says otherwise."""
    ds = scalars(u['tier'])
    for i in range(u['lo'], u['hi']):
        for j in range(i, len(ds)):
            a, b = pd.Timestamp(ds[i]), pd.Timestamp(ds[j])
            S, E = DateTable([ds[i]]).take([0]), DateTable([ds[j]]).take([0])
            rec.state(i, j)
            for bname in BASES:
                for flag in ([None] if bname != '_30E_360_ISDA' else [None, False, True]):
                    kw = {} if flag is None else dict(is_end_date_on_termination=flag)
                    for what, fn, ref in (('days', day_count, ref_days_vec), ('years', year_frac, ref_years_vec)):
                        case = dict(basis=bname, what=what, flag=str(flag), start=str(ds[i]), end=str(ds[j]), scalar=True)
                        want = float(np.asarray(ref(bname, S, E, np.array([flag is not False])))[0])
                        ok, got = rec.call('raises', case, fn, a, b, DayCountBasis[bname], **kw)
                        if ok:
                            rec.traces += 1
                            rec.check(np.ndim(got) == 0 and abs(float(got) - want) <= (0 if what == 'days' else 1e-12), 'value', case, lambda: 'got %r, definition gives %r' % (got, want))
    rec.sample(dict(start=str(ds[u['lo']]), end=str(ds[-1])))


def run_unit(u, rec):
    if u.get('kind') == 'scalar':
        return do_scalar(u, rec)
    ds = SETS[u['set']]()
    tab = DateTable(ds)
    n = len(ds)
    I = np.concatenate([np.full(n - i, i) for i in range(u['lo'], u['hi'])])
    J = np.concatenate([np.arange(i, n) for i in range(u['lo'], u['hi'])])
    S, E = tab.take(I), tab.take(J)
    dti = pd.DatetimeIndex([pd.Timestamp(x) for x in ds])
    sd, ed = dti[I], dti[J]
    rec.bulk_states += len(I)
    for b in BASES:
        basis = DayCountBasis[b]
        flags = [None] if b != '_30E_360_ISDA' else [None, False, True, 'alt']
        for flag in flags:
            term = np.zeros(len(I), dtype=bool)
            arg = flag
            if flag is None:
                term[-1] = True
            elif flag == 'alt':
                term = (I + J) % 2 == 0
                arg = term
            else:
                term[:] = flag
            kw = {} if flag is None else dict(is_end_date_on_termination=arg)
            for what, fn, ref in (('days', day_count, ref_days_vec), ('years', year_frac, ref_years_vec)):
                want = ref(b, S, E, term)
                ok, got = rec.call('raises', dict(basis=b, what=what, flag=str(flag), set=u['set']), fn, sd, ed, basis, **kw)
                if not ok:
                    continue
                got = np.asarray(got, dtype=float)
                rec.transitions += len(I) - 1
                rec.traces += len(I)
                if got.shape != want.shape:
                    rec.fail('shape', dict(basis=b, what=what, flag=str(flag)), 'shape %s, expected %s' % (got.shape, want.shape))
                    continue
                tol = 0 if what == 'days' else 1e-12
                bad = np.flatnonzero(~(np.abs(got - want) <= tol))
                for o in np.unique(np.round(want, 2))[:50]:
                    rec.outcome(b, what, float(o))
                for k in bad[:3]:
                    rec.fail('value', dict(basis=b, what=what, flag=str(flag), start=str(ds[I[k]]), end=str(ds[J[k]]), termination=bool(term[k])),
                             'got %r, definition gives %r (%d pairs of this unit differ)' % (got[k], want[k], len(bad)))
                if len(bad):
                    rec.nfails += len(bad) - min(3, len(bad))
    rec.sample(dict(start=str(ds[I[-1]]), end=str(ds[J[-1]]), bases=len(BASES)))
