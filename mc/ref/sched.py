"""Reference schedule generation on plain datetime.date, written from the documented rules (no numpy / pandas / frm code)."""
from datetime import date, timedelta
from mc.ref.dates import dim

ONE = timedelta(1)


class Cal:
    def __init__(self, weekmask='1111100', holidays=()):
        self.weekmask, self.holidays = weekmask, frozenset(holidays)

    def bd(self, d):
        return self.weekmask[d.weekday()] == '1' and d not in self.holidays

    def np(self):
        import numpy as np
        return np.busdaycalendar(weekmask=self.weekmask, holidays=[h.isoformat() for h in sorted(self.holidays)])


def follow(d, cal):
    while not cal.bd(d):
        d += ONE
    return d


def precede(d, cal):
    while not cal.bd(d):
        d -= ONE
    return d


def roll(d, conv, cal):
    if conv == 'UNADJUSTED':
        return d
    f, p = follow(d, cal), precede(d, cal)
    if conv == 'FOLLOWING':
        return f
    if conv == 'PRECEDING':
        return p
    if conv == 'MODIFIED_FOLLOWING':
        return f if f.month == d.month else p
    if conv == 'MODIFIED_PRECEDING':
        return p if p.month == d.month else f
    raise ValueError(conv)


def bd_offset(d, n, conv, cal):
    """Business day offset: roll to a business day, then move n business days."""
    if conv == 'UNADJUSTED':
        if n == 0:
            return d
    else:
        d = roll(d, conv, cal)
    step = ONE if n > 0 else -ONE
    k = abs(n)
    while k:
        d += step
        if cal.bd(d):
            k -= 1
    return d


def add_months(d, n):
    t = d.year * 12 + d.month - 1 + n
    y, m = t // 12, t % 12 + 1
    return date(y, m, min(d.day, dim(y, m)))


FREQ = {'DAILY': ('d', 1), 'WEEKLY': ('d', 7), '_28_DAYS': ('d', 28), 'MONTHLY': ('m', 1), 'QUARTERLY': ('m', 3), 'SEMIANNUAL': ('m', 6), 'ANNUAL': ('m', 12)}


def grid(anchor, k, freq):
    u, n = FREQ[freq]
    return anchor + timedelta(n * k) if u == 'd' else add_months(anchor, n * k)


def day_roll(d, dr):
    if dr == 'UNADJUSTED':
        return d
    last = dim(d.year, d.month)
    return d.replace(day=last if dr == 'EOM' else min(int(dr), last))


def boundaries(start, end, freq, direction, conv, dr, flag, cal):
    """List of period boundaries [start, ..., end]."""
    s0, e0 = (roll(start, conv, cal), roll(end, conv, cal)) if flag else (start, end)
    lo, hi = max(start, s0), min(end, e0)
    inner = set()
    k = 1
    while True:
        u = day_roll(grid(start, k, freq) if direction == 'forward' else grid(end, -k, freq), dr)
        if (direction == 'forward' and u >= end) or (direction == 'backward' and u <= start):
            break
        r = roll(u, conv, cal)
        if lo < r < hi:
            inner.add(r)
        k += 1
    return [s0] + sorted(inner) + [e0]


def is_exact(start, end, freq, direction, dr):
    """The term is a whole number of periods seen from the anchor."""
    k = 1
    while True:
        u = day_roll(grid(start, k, freq) if direction == 'forward' else grid(end, -k, freq), dr)
        if u == (end if direction == 'forward' else start):
            return True
        if (direction == 'forward' and u > end) or (direction == 'backward' and u < start):
            return False
        k += 1


class Rejected(Exception):
    pass


def schedule(start, end, freq, conv='MODIFIED_FOLLOWING', dr='UNADJUSTED', fpe=None, lps=None, first='DEFAULT', last='DEFAULT', flag=False, cal=None):
    """Boundaries of the schedule.  Raises Rejected where the inputs are documented as invalid."""
    cal = cal or Cal()
    if start >= end:
        raise Rejected()
    gen = lambda s, e, direction: boundaries(s, e, freq, direction, conv, dr, flag, cal)
    if freq == 'ZERO_COUPON' or (fpe is not None and fpe == end) or (lps is not None and lps == start):
        b = [start, end]
    elif fpe is not None and lps is not None and fpe == lps:
        b = [start, fpe, end]
    elif fpe is None and lps is None:
        if first in ('SHORT', 'LONG') and last in ('SHORT', 'LONG'):
            raise Rejected()
        if last in ('SHORT', 'LONG'):
            b = gen(start, end, 'forward')
            if last == 'LONG' and len(b) > 2:
                del b[-2]
        else:
            b = gen(start, end, 'backward')
            if first == 'LONG' and len(b) > 2:
                del b[1]
    else:
        F, B = gen(start, end, 'forward'), gen(start, end, 'backward')
        fm = lm = None          # (direction, boundaries with that direction honouring the user's date)
        if fpe is not None:
            if fpe == F[1]:
                fm = 'F'
            elif fpe == B[1]:
                fm = 'B'
            elif len(B) > 2 and fpe == B[2]:
                fm = 'BL'
        if lps is not None:
            if lps == B[-2]:
                lm = 'B'
            elif lps == F[-2]:
                lm = 'F'
            elif len(F) > 2 and lps == F[-3]:
                lm = 'FL'
        if fpe is not None and lps is not None:
            if fm and lm and fm[0] == lm[0]:
                b = list(F if fm[0] == 'F' else B)
                if fm == 'BL':
                    del b[1]
                if lm == 'FL':
                    del b[-2]
            else:
                if fpe >= lps:
                    raise Rejected()
                b = [start] + gen(fpe, lps, 'backward') + [end]
        elif fpe is not None:
            # a stub type explicitly given for the other side: LONG merges the short stub, but never the user's own period
            if fm is None:
                b = [start] + gen(fpe, end, 'forward')
                if last == 'LONG' and len(b) > 3:
                    del b[-2]
            else:
                if fm != 'F' and last in ('SHORT', 'LONG'):
                    raise Rejected()
                b = list(F if fm == 'F' else B)
                if fm == 'BL':
                    del b[1]
                if fm == 'F' and last == 'LONG' and len(b) > 3:
                    del b[-2]
        else:
            if lm is None:
                b = gen(start, lps, 'backward') + [end]
                if first == 'LONG' and len(b) > 3:
                    del b[1]
            else:
                if lm != 'B' and first in ('SHORT', 'LONG'):
                    raise Rejected()
                b = list(F if lm[0] == 'F' else B)
                if lm == 'FL':
                    del b[-2]
                if lm == 'B' and first == 'LONG' and len(b) > 3:
                    del b[1]
    if flag and conv != 'UNADJUSTED':
        b = [roll(x, conv, cal) for x in b]
    return b
