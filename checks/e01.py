"""E01: comfort and efficiency metrics match their definitions."""
import math
from decimal import Decimal as D
from fractions import Fraction as F

import numpy as np

from vlib import simkit as K
from vlib import world as W
from vlib.core import rot
from dg_commons import DgSampledSequence
from dg_commons.eval.comfort import acc_freq_filter, get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import distance_traveled
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState

ID = "E01"
RULE = ("distinct (metric, number of samples, kind of time stamps, window relative to the samples, kind of signal) classes in which a metric was "
        "compared with a direct evaluation of its definition")
REQUIRE = {"jerks": 1500, "rms": 1500, "distances": 600, "windows": 1000, "window on a sample": 300, "odd counts": 300, "even counts": 300, "metamorphic": 600, "recorded": 20, "long": 15}
MIN_SITUATIONS = 60


def stamps(c, n, kind):
    if kind == "decimal":
        h = D(c.pick(["0.1", "0.05", "0.25", "0.01", "0.005", "0.001"]))
        t = D(c.pick(["0", "0", "1.3"]))
        return [t + i * h for i in range(n)]
    if kind == "integer":
        return list(range(c.int(0, 5), c.int(0, 5) + n + 5))[:n]
    if kind == "irregular":
        t, out, gaps = D(0), [], c.chance(0.4)
        for _ in range(n):
            out.append(t)
            t += D(str(round(10 ** c.u(-2, 2), 3))) if gaps else D(str(round(c.u(0.01, 0.5), 3)))
        return out
    h = c.u(0.02, 0.4) if c.chance(0.6) else 10 ** c.u(-4, -1)
    return [i * h for i in range(n)]


def signal(c, n):
    how = c.pick(["noise", "constant", "steps", "sine", "spike", "zero"])
    if how == "noise":
        return how, [c.u(-8, 8) for _ in range(n)]
    if how == "constant":
        return how, [c.u(-8, 8)] * n
    if how == "zero":
        return how, [0.0] * n
    if how == "sine":
        a, w = c.u(0.1, 5), c.u(0.05, 3)
        return how, [a * math.sin(w * i) for i in range(n)]
    if how == "spike":
        x = [0.0] * n
        x[c.int(0, n - 1)] = c.u(-8, 8)
        return how, x
    x, v = [], 0.0
    for _ in range(n):
        v = c.u(-5, 5) if c.chance(0.15) else v
        x.append(v)
    return how, x


def seq(ts, acc):
    return DgSampledSequence[VehicleCommands](timestamps=list(ts), values=[VehicleCommands(acc=float(a), ddelta=0.3) for a in acc])


def window(c, ts):
    """a window, and how it lies"""
    how = c.pick(["everything", "everything", "from", "until", "both", "on samples", "on samples", "wide"])
    lo = hi = None
    as_time = (lambda x: D(str(round(float(x), 4)))) if isinstance(ts[0], D) and c.chance(0.7) else float
    a, b = float(ts[0]), float(ts[-1])
    if how == "from":
        lo = as_time(c.u(a, b))
    elif how == "until":
        hi = as_time(c.u(a, b))
    elif how == "both":
        x, y = sorted((c.u(a, b), c.u(a, b)))
        lo, hi = as_time(x), as_time(y)
    elif how == "wide":
        lo, hi = as_time(a - 5), as_time(b + 5)
    elif how == "on samples":
        i, j = sorted((c.int(0, len(ts) - 1), c.int(0, len(ts) - 1)))
        lo, hi = ts[i], ts[j]
        if c.chance(0.3):
            lo = None
        if c.chance(0.3):
            hi = None
        c.count("window on a sample")
    if lo is not None or hi is not None:
        c.count("windows")
    return how, lo, hi


def within(t, lo, hi):
    return (lo is None or F(t) >= F(lo)) and (hi is None or F(t) <= F(hi))


def jerk_ref(ts, acc, lo, hi):
    best = 0.0
    for (t0, a0), (t1, a1) in zip(zip(ts, acc), zip(ts[1:], acc[1:])):
        if within(t1, lo, hi):
            best = max(best, abs((a1 - a0) / float(F(t1) - F(t0))))
    return best


def weight(f):
    """ISO 2631 horizontal weighting, third order approximation"""
    return (14.55 * f**2 + 6.026 * f + 7.725) / (f**3 + 15.02 * f**2 + 51.63 * f + 47.61)


def rms_ref(x, period=0.1):
    """by Parseval's theorem from a directly evaluated Fourier transform"""
    n = len(x)
    k = np.arange(n)
    X = np.exp(-2j * math.pi * np.outer(k, k) / n) @ np.asarray(x, float)
    f = np.minimum(k, n - k) / (n * period)
    return math.sqrt(float((np.abs(X * np.array([weight(v) for v in f])) ** 2).sum())) / n


def args(lo, hi):
    return {} if lo is None and hi is None else {"t_range": (lo, hi)}


def jerk(c):
    kind = c.pick(["decimal", "integer", "irregular", "float"])
    n = c.pick([1, 2, 3, c.int(4, 60)]) if not c.chance(0.03) else c.int(200, 3000)
    ts = stamps(c, n, kind)
    how, x = signal(c, n)
    w, lo, hi = window(c, ts)
    got = get_max_jerk(seq(ts, x), **args(lo, hi))
    kw = dict(times=ts[:8], signal=x[:8], window=(lo, hi), n=n)
    c.close(got, jerk_ref(ts, x, lo, hi), "maximal jerk", rtol=1e-9, atol=1e-9, **kw)
    c.le(0, got, "jerk is not negative")
    c.count("jerks")
    k = c.u(0.1, 3)
    c.close(get_max_jerk(seq(ts, [-k * v for v in x]), **args(lo, hi)), k * got, "jerk scales with the signal, whatever its sign", rtol=1e-9, atol=1e-9, **kw)
    c.close(get_max_jerk(seq(ts, [v + 2.5 for v in x]), **args(lo, hi)), got, "a constant acceleration adds no jerk", rtol=1e-7, atol=1e-7, **kw)
    c.count("metamorphic")
    c.situation("jerk", min(n, 4), kind, w, how)


def rms(c):
    kind = c.pick(["decimal", "integer", "irregular", "float"])
    n = c.pick([1, 2, 3, c.int(4, 60), c.int(4, 60)]) if not c.chance(0.02) else c.int(200, 1100)
    c.count("long", n >= 200)
    ts = stamps(c, n, kind)
    how, x = signal(c, n)
    w, lo, hi = window(c, ts)
    sel = [v for t, v in zip(ts, x) if within(t, lo, hi)]
    if not sel:
        return
    s = seq(ts, x)
    got = get_acc_rms(s, **args(lo, hi))
    kw = dict(times=ts[:8], signal=x[:8], window=(lo, hi), n=n, within=len(sel))
    c.close(got, rms_ref(sel), "weighted RMS acceleration", rtol=1e-6, atol=1e-9, **kw)
    c.le(0, got, "RMS is not negative")
    c.count("rms")
    c.count("odd counts" if len(sel) % 2 else "even counts")
    k = c.u(0.1, 3)
    c.close(get_acc_rms(seq(ts, [-k * v for v in x]), **args(lo, hi)), k * got, "RMS scales with the signal, whatever its sign", rtol=1e-6, atol=1e-9, **kw)
    c.count("metamorphic")
    # backwards in time: same spectrum
    c.close(get_acc_rms(seq(ts[: len(sel)], sel[::-1])), got, "RMS does not depend on the direction of time", rtol=1e-6, atol=1e-9, **kw)
    if how == "constant":
        c.close(got, abs(sel[0]) * 7.725 / 47.61, "RMS of a constant acceleration", rtol=1e-6)
    other = [c.u(-5, 5) for _ in x]
    both = get_acc_rms(seq(ts, [a + b for a, b in zip(x, other)]), **args(lo, hi))
    c.le(both, got + get_acc_rms(seq(ts, other), **args(lo, hi)) + 1e-7, "RMS of a sum is at most the sum of RMS", **kw)
    c.eq([v.acc for v in s.values], [float(v) for v in x], "the signal is left as it is")
    c.situation("rms", min(len(sel), 4), len(sel) % 2, kind, w, how)


def weighting(c):
    for _ in range(20):
        f = c.pick([0.0, c.u(0, 1), c.u(0, 5), c.u(5, 50)])
        c.close(acc_freq_filter(f), weight(f), "frequency weighting", rtol=1e-9)
    c.situation("weighting")


def distance(c):
    n = c.pick([1, 2, c.int(3, 50)]) if not c.chance(0.03) else c.int(200, 3000)
    ts = stamps(c, n, c.pick(["decimal", "integer", "irregular", "float"]))
    how = c.pick(["random", "straight", "back and forth", "standing", "tiny", "leaps"])
    o = np.array([c.u(-1e3, 1e3), c.u(-1e3, 1e3)])
    if how == "random":
        p = [o + [c.u(-20, 20), c.u(-20, 20)] for _ in range(n)]
    elif how == "straight":
        d = np.array([c.u(-2, 2), c.u(-2, 2)])
        p = [o + i * d for i in range(n)]
    elif how == "back and forth":
        d = np.array([c.u(-2, 2), c.u(-2, 2)])
        p = [o + (i % 2) * d for i in range(n)]
    elif how == "standing":
        p = [o] * n
    elif how == "leaps":  # hardly sampled, or very fast
        z = 10 ** c.u(1, 5)
        p = [o + [c.u(-z, z), c.u(-z, z)] for _ in range(n)]
    else:
        p = [o + [c.u(-1e-3, 1e-3), c.u(-1e-3, 1e-3)] for _ in range(n)]
    # what the states say about speed does not matter, e.g. that of a vehicle that is carried or slides sideways
    vel = c.pick([lambda: c.u(-3, 9), lambda: c.u(-3, 9), lambda: 0.0, lambda: c.pick([0.0, 0.0, c.u(-3, 9)]), lambda: c.u(-1e-6, 1e-6), lambda: c.u(-20, 0)])
    mk = lambda q: [VehicleState(x=float(a), y=float(b), psi=c.ang(), vx=vel(), delta=0.0) for a, b in q]
    s = DgSampledSequence[VehicleState](timestamps=ts, values=mk(p))
    got = distance_traveled(s)
    want = math.fsum(math.hypot(*(b - a)) for a, b in zip(p, p[1:]))
    c.close(got, want, "distance travelled", rtol=1e-9, atol=1e-9, n=n, how=how)
    t, d = c.ang(), np.array([c.u(-100, 100), c.u(-100, 100)])
    c.close(distance_traveled(DgSampledSequence[VehicleState](timestamps=ts, values=mk([rot(t) @ q + d for q in p]))), got, "distance does not depend on the world frame", rtol=1e-7, atol=1e-7)
    c.close(distance_traveled(DgSampledSequence[VehicleState](timestamps=ts, values=mk(p[::-1]))), got, "distance does not depend on the direction of travel", rtol=1e-9, atol=1e-9)
    c.le(float(np.hypot(*(p[-1] - p[0]))), got + 1e-7, "distance travelled is at least the distance made")
    c.count("distances")
    c.count("metamorphic")
    c.situation("distance", min(n, 3), how)


def recorded(c):
    """logs of simulations"""
    w = K.world(c, n=2, kinds=["car", "truck", "bicycle"], sensors=False, record=False, max_steps=(10, 60))
    w.run()
    for n in w.names:
        log = w.ctx.log[n]
        p = np.array([[s.x, s.y] for s in log.states.values])
        c.close(distance_traveled(log.states), float(np.hypot(*np.diff(p, axis=0).T).sum()) if len(p) > 1 else 0.0, "distance travelled in a simulation", rtol=1e-9, atol=1e-9)
        if len(log.commands.values):
            ts, x = list(log.commands.timestamps), [u.acc for u in log.commands.values]
            c.close(get_max_jerk(log.commands), jerk_ref(ts, x, None, None), "maximal jerk in a simulation", rtol=1e-9, atol=1e-9)
            c.close(get_acc_rms(log.commands), rms_ref(x), "weighted RMS acceleration in a simulation", rtol=1e-6, atol=1e-9)
        c.count("recorded")


FAMILIES = [("jerk", jerk, 2500, 40000), ("rms", rms, 2500, 40000), ("weighting", weighting, 20, 100), ("distance", distance, 900, 15000), ("recorded", recorded, 25, 400)]
