"""Reference option formulas in plain Python floats (math.erfc)."""
import math


def N(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def n(x):
    return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)


def black(F, K, tau, vol, cp, shift=0.0, ann=1.0):
    """price, delta wrt F, vega wrt vol (per 1.0)"""
    f, k = F + shift, K + shift
    s = vol * math.sqrt(tau)
    if s == 0:
        return ann * max(0.0, cp * (f - k)), None, None
    d1 = math.log(f / k) / s + 0.5 * s
    d2 = d1 - s
    return ann * cp * (f * N(cp * d1) - k * N(cp * d2)), ann * cp * N(cp * d1), ann * f * math.sqrt(tau) * n(d1)


def bachelier(F, K, tau, vol, cp, ann=1.0):
    """price, delta, vega (per 1.0), theta (per year)"""
    s = vol * math.sqrt(tau)
    if s == 0:
        return ann * max(0.0, cp * (F - K)), None, None, None
    d = (F - K) / s
    return ann * (cp * (F - K) * N(cp * d) + s * n(d)), ann * cp * N(cp * d), ann * math.sqrt(tau) * n(d), -ann * 0.5 * n(d) * vol / math.sqrt(tau)


def gk(S, K, tau, rd, rf, vol, cp):
    """Garman-Kohlhagen price through the forward"""
    F = S * math.exp((rd - rf) * tau)
    return black(F, K, tau, vol, cp, ann=math.exp(-rd * tau))[0]
