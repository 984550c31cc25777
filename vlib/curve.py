"""Reference for lane centrelines: constant-twist segments between control points, straight beyond the ends."""
import math

import numpy as np

from vlib.core import rot, wrap


def twist(q0, q1):
    """(body velocity, angle) leading from pose q0 to q1 in unit time along a circular arc; q = (x, y, theta)"""
    f = wrap(q1[2] - q0[2])
    t = rot(-q0[2]) @ (np.asarray(q1[:2], float) - q0[:2])
    if abs(f) < 1e-7:
        # second order accurate inverse of the left Jacobian
        return rot(-f / 2) @ t * (1 + f * f / 24), f
    return rot(-f / 2) @ t * (f / 2) / math.sin(f / 2), f


def along(q0, v, f, a):
    """pose at fraction a of the arc"""
    g = f * a
    if abs(g) < 1e-7:
        t = rot(g / 2) @ v * a * (1 - g * g / 24)
    else:
        t = rot(g / 2) @ v * a * math.sin(g / 2) / (g / 2)
    p = np.asarray(q0[:2], float) + rot(q0[2]) @ t
    return np.array([p[0], p[1], q0[2] + g])


class Curve:
    def __init__(self, pts, ths, rs):
        self.q = [np.array([p[0], p[1], t], float) for p, t in zip(pts, ths)]
        self.r = [float(r) for r in rs]
        self.tw = [twist(a, b) for a, b in zip(self.q, self.q[1:])]
        self.lengths = [float(np.hypot(*v)) for v, _ in self.tw]
        self.n = len(self.q)
        self.L = math.fsum(self.lengths)

    def at(self, beta):
        n = self.n
        if beta < 0:
            q = self.q[0]
            return np.array([q[0] + beta * math.cos(q[2]), q[1] + beta * math.sin(q[2]), q[2]])
        if beta >= n - 1:
            q, d = self.q[-1], beta - (n - 1)
            return np.array([q[0] + d * math.cos(q[2]), q[1] + d * math.sin(q[2]), q[2]])
        i = int(math.floor(beta))
        v, f = self.tw[i]
        return along(self.q[i], v, f, beta - i)

    def s(self, beta):
        if beta < 0:
            return beta
        if beta >= self.n - 1:
            return self.L + beta - (self.n - 1)
        i = int(math.floor(beta))
        return math.fsum(self.lengths[:i]) + self.lengths[i] * (beta - i)

    def beta(self, s):
        if s < 0:
            return s
        for i, l in enumerate(self.lengths):
            if s < l:
                return i + s / l
            s -= l
        return self.n - 1 + s

    def radius(self, beta):
        if beta <= 0:
            return self.r[0]
        if beta >= self.n - 1:
            return self.r[-1]
        i = int(math.floor(beta))
        return self.r[i] * (1 - (beta - i)) + self.r[i + 1] * (beta - i)

    def closest(self, p, lo=None, hi=None, k=12):
        """(beta, distance) of the closest point: dense sampling, then golden section"""
        lo = -30.0 if lo is None else lo
        hi = self.n - 1 + 30.0 if hi is None else hi
        m = int((hi - lo) * k) + 2
        bs = np.linspace(lo, hi, m)
        d = [math.hypot(*(self.at(b)[:2] - p)) for b in bs]
        i = int(np.argmin(d))
        a, b = bs[max(0, i - 1)], bs[min(m - 1, i + 1)]
        g = (math.sqrt(5) - 1) / 2
        f = lambda x: math.hypot(*(self.at(x)[:2] - p))
        x1, x2 = b - g * (b - a), a + g * (b - a)
        f1, f2 = f(x1), f(x2)
        for _ in range(60):
            if f1 < f2:
                b, x2, f2 = x2, x1, f1
                x1 = b - g * (b - a)
                f1 = f(x1)
            else:
                a, x1, f1 = x1, x2, f2
                x2 = a + g * (b - a)
                f2 = f(x2)
        return (a + b) / 2, f((a + b) / 2)
