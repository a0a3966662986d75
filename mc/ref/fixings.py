"""Reference fixing history and coupon rates (plain Python)."""
from datetime import date, timedelta
import pandas as pd

D = date
HOL = {D(2023, 12, 25), D(2023, 12, 26), D(2024, 1, 1), D(2024, 1, 26)}
DPY = {'ACT_365': 365, 'ACT_360': 360}


def bd(d):
    return d.weekday() < 5 and d not in HOL


class History:
    def __init__(self, first, last, closed=()):
        self.first, self.last = first, last
        days = [first + timedelta(i) for i in range((last - first).days + 1)]
        self.fix = {d: 0.02 + 0.0007 * ((i * 7) % 13) - 0.001 * (i % 5) for i, d in enumerate(x for x in days if bd(x) and x not in closed)}

    def frame(self, order='sorted'):
        ds = sorted(self.fix)
        if order == 'reversed':
            ds = ds[::-1]
        elif order == 'rotated':
            ds = ds[7:] + ds[:7]
        return pd.DataFrame({'date': [pd.Timestamp(d) for d in ds], 'fixing': [self.fix[d] for d in ds]}, index=range(3, 3 + len(ds)))

    def on(self, d):
        while d >= self.first:
            if d in self.fix:
                return self.fix[d]
            d -= timedelta(1)
        return None

    def rate(self, s, e, method, basis):
        """coupon rate of [s, e); None where it is not determined by the history"""
        n = (e - s).days
        days = [s + timedelta(i) for i in range(n)]
        r = [self.on(d) for d in days]
        if None in r:
            return None
        if method == 'DAILY_COMPOUNDED':
            p = 1.0
            for x in r:
                p *= 1 + x / DPY[basis]
            return (p - 1) * DPY[basis] / n
        if method == 'WEIGHTED_AVERAGE':
            return sum(r) / n
        f = [self.fix[d] for d in days if d in self.fix]
        return sum(f) / len(f) if f else None
