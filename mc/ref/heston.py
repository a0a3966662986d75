"""Reference Heston prices: Lewis' single integral on panels of Gauss-Legendre nodes, characteristic function of ln(S_T/F)."""
import math
import numpy as np
X, W = np.polynomial.legendre.leggauss(48)


def cf(u, tau, var0, vv, kappa, theta, rho):
    be = kappa - rho * vv * 1j * u
    d = np.sqrt(be * be + (u * u + 1j * u) * vv * vv)
    rm, g, e = (be - d) / vv ** 2, (be - d) / (be + d), np.exp(-d * tau)
    return np.exp(kappa * theta * (rm * tau - 2 / vv ** 2 * np.log((1 - g * e) / (1 - g))) + var0 * rm * (1 - e) / (1 - g * e))


def cf_ode(u, tau, var0, vv, kappa, theta, rho, n=4000):
    """the same characteristic function by integrating its Riccati equations (validates cf)"""
    def f(D):
        return -0.5 * (u * u + 1j * u) - (kappa - rho * vv * 1j * u) * D + 0.5 * vv * vv * D * D
    C = D = 0j
    h = tau / n
    for _ in range(n):
        k1 = f(D); k2 = f(D + h / 2 * k1); k3 = f(D + h / 2 * k2); k4 = f(D + h * k3)
        C += h / 6 * kappa * theta * (D + 2 * (D + h / 2 * k1) + 2 * (D + h / 2 * k2) + (D + h * k3))
        D += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return np.exp(C + D * var0)


class Smile:
    """prices for many strikes of one maturity"""
    def __init__(self, tau, var0, vv, kappa, theta, rho):
        us, ws, a, h = [], [], 0.0, 0.5 / max(0.05, math.sqrt(max(var0, theta) * tau))
        for i in range(300):
            u, w = a + h * (X + 1) / 2, h / 2 * W
            c = cf(u - 0.5j, tau, var0, vv, kappa, theta, rho) / (u * u + 0.25)
            us.append(u)
            ws.append(c * w)
            a += h
            h *= 1.1
            if np.abs(c).max() * h < 1e-15 and i > 3:
                break
        self.u, self.w = np.concatenate(us), np.concatenate(ws)

    def price(self, cp, F, K, df):
        k = math.log(F / K)
        v = F - math.sqrt(F * K) / math.pi * float((np.exp(1j * self.u * k) * self.w).real.sum())
        return df * (v if cp == 1 else v - F + K)


def mean_var(tau, var0, kappa, theta):
    return theta + (var0 - theta) * (1 - math.exp(-kappa * tau)) / (kappa * tau)
