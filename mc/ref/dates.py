"""Boring integer reference for day counts (no pandas, no code shared with frm)."""
from datetime import date
import numpy as np

BASES = ['_30_360', '_30E_360', '_30E_360_ISDA', 'ACT_360', 'ACT_365', 'ACT_ACT', 'ACT_366']
DENOM = {'_30_360': 360, '_30E_360': 360, '_30E_360_ISDA': 360, 'ACT_360': 360, 'ACT_365': 365, 'ACT_366': 366}


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def ref_days(basis, s, e, term=False):
    """ISDA definition of the day count between dates s <= e (datetime.date)."""
    if basis in ('ACT_360', 'ACT_365', 'ACT_ACT', 'ACT_366'):
        return e.toordinal() - s.toordinal()
    d1, d2 = s.day, e.day
    if basis == '_30_360':
        if d1 == 31:
            d1 = 30
        if d2 == 31 and d1 == 30:
            d2 = 30
    elif basis == '_30E_360':
        d1, d2 = min(d1, 30), min(d2, 30)
    elif basis == '_30E_360_ISDA':
        if d1 == dim(s.year, s.month) and (s.month == 2 or d1 == 31):
            d1 = 30
        if d2 == 31 or (e.month == 2 and d2 == dim(e.year, 2) and not term):
            d2 = 30
    return 360 * (e.year - s.year) + 30 * (e.month - s.month) + d2 - d1


def ref_years(basis, s, e, term=False):
    if basis != 'ACT_ACT':
        return ref_days(basis, s, e, term) / DENOM[basis]
    if s.year == e.year:
        return (e.toordinal() - s.toordinal()) / (366 if is_leap(s.year) else 365)
    first = (date(s.year + 1, 1, 1).toordinal() - s.toordinal()) / (366 if is_leap(s.year) else 365)
    last = (e.toordinal() - date(e.year, 1, 1).toordinal()) / (366 if is_leap(e.year) else 365)
    return first + (e.year - s.year - 1) + last


class DateTable:
    """Vectorised version of the same formulae over an array of dates (columns y, m, d, ord, flags)."""

    def __init__(self, dates):
        self.dates = list(dates)
        a = lambda f: np.array([f(x) for x in self.dates], dtype=np.int64)
        self.y, self.m, self.d, self.o = a(lambda x: x.year), a(lambda x: x.month), a(lambda x: x.day), a(lambda x: x.toordinal())
        self.eofeb = np.array([x.month == 2 and x.day == dim(x.year, 2) for x in self.dates])
        self.ylen = a(lambda x: 366 if is_leap(x.year) else 365)
        self.y0 = a(lambda x: date(x.year, 1, 1).toordinal())

    def take(self, ix):
        t = object.__new__(DateTable)
        t.dates = None
        for k in ('y', 'm', 'd', 'o', 'eofeb', 'ylen', 'y0'):
            setattr(t, k, getattr(self, k)[ix])
        return t


def ref_days_vec(basis, S, E, term):
    if basis in ('ACT_360', 'ACT_365', 'ACT_ACT', 'ACT_366'):
        return E.o - S.o
    d1 = np.where(S.d == 31, 30, S.d)
    d2 = E.d.copy()
    if basis == '_30_360':
        d2 = np.where((d2 == 31) & (d1 == 30), 30, d2)
    elif basis == '_30E_360':
        d2 = np.where(d2 == 31, 30, d2)
    else:
        d1 = np.where(S.eofeb, 30, d1)
        d2 = np.where((d2 == 31) | (E.eofeb & ~term), 30, d2)
    return 360 * (E.y - S.y) + 30 * (E.m - S.m) + d2 - d1


def ref_years_vec(basis, S, E, term):
    if basis != 'ACT_ACT':
        return ref_days_vec(basis, S, E, term) / DENOM[basis]
    same = (E.o - S.o) / S.ylen
    diff = (S.y0 + S.ylen - S.o) / S.ylen + (E.y - S.y - 1) + (E.o - E.y0) / E.ylen
    return np.where(S.y == E.y, same, diff)
