"""Reference zero curve: pillars (date, discount factor) -> discount factor at any year fraction / date."""
import math
import numpy as np
from scipy.interpolate import CubicSpline
from mc.ref.dates import ref_years

LIN, SPLN, SPLZ = 'LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR'


class RefCurve:
    def __init__(self, curve_date, dates, dfs, basis, interp):
        self.cd, self.basis, self.interp = curve_date, basis, interp
        self.dates = list(dates)
        self._build([ref_years(basis, curve_date, d) for d in dates], dfs)

    @classmethod
    def from_years(cls, t, dfs, interp):
        self = cls.__new__(cls)
        self.interp = interp
        self._build(list(t), dfs)
        return self

    def _build(self, t, dfs):
        interp = self.interp
        y = [math.log(x) for x in dfs]
        self.t, self.y = t, y
        if interp == SPLZ:
            self.spl = CubicSpline(t, [-b / a for a, b in zip(t, y)], bc_type='not-a-knot')
        else:
            t0, y0 = [0.0] + t, [0.0] + y
            self.t0, self.y0 = t0, y0
            if interp == SPLN:
                self.spl = CubicSpline(t0, y0, bc_type='not-a-knot')

    def years(self, d):
        return ref_years(self.basis, self.cd, d) if d > self.cd else 0.0

    def ln(self, t):
        if self.interp == SPLZ:
            return -float(self.spl(t)) * t
        if self.interp == SPLN:
            return float(self.spl(t))
        return float(np.interp(t, self.t0, self.y0))

    def df(self, d):
        return math.exp(self.ln(self.years(d)))

    def inst_fwd(self, t):
        if self.interp == SPLZ:
            return float(self.spl(t) + t * self.spl(t, 1))
        if self.interp == SPLN:
            return -float(self.spl(t, 1))
        i = min(max(int(np.searchsorted(self.t0, t, side='right')), 1), len(self.t0) - 1)
        return -(self.y0[i] - self.y0[i - 1]) / (self.t0[i] - self.t0[i - 1])
