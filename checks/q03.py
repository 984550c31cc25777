"""Q03: sequence calculus."""
from decimal import Decimal as D
from fractions import Fraction as F

from checks.q01 import times
from dg_commons.seq.seq_op import find_crossings, seq_accumulate, seq_differentiate, seq_integrate
from dg_commons.seq.sequence import DgSampledSequence

ID = "Q03"
RULE = ("distinct (operation, timestamp type, shape of the signal) classes in which the real result was compared with one computed in exact "
        "rational arithmetic")
REQUIRE = {"integrals": 400, "derivatives": 400, "sums": 400, "crossings": 500, "no crossing": 50, "passages on a sample": 300, "linear": 200, "nearly uniform": 80}
MIN_SITUATIONS = 25


def signal(c, tk, n=None):
    n = c.pick([2, 3, 4, 8, 25]) if n is None else n
    ts = times(c, n, tk)
    if tk in ("float", "decimal") and c.chance(0.3):  # (nearly) equally spaced
        h, e = c.pick([1.0, 0.1, 0.05, c.u(0.01, 2)]), c.pick([0.0, 1e-2, 1e-2, 1e-3])
        ts = [round(i * h * (1 + e * c.u(-0.5, 0.5) / max(i, 1)), 9) for i in range(n)]
        ts = [D(str(x)) for x in ts] if tk == "decimal" else ts
        c.count("nearly uniform", e > 0)
    shape = c.pick(["random", "constant", "monotone", "steps", "spiky"])
    if shape == "constant":
        v = c.u(-3, 3)
        vs = [v] * n
    elif shape == "monotone":
        v, vs = c.u(-3, 3), []
        for _ in range(n):
            vs.append(v)
            v += c.u(0.01, 1)
    elif shape == "steps":
        vs = [float(c.int(-2, 2)) for _ in range(n)]
    elif shape == "spiky":
        vs = [c.sign() * 10 ** c.u(-3, 3) for _ in range(n)]
    else:
        vs = [c.u(-3, 3) for _ in range(n)]
    if c.chance(0.15):
        vs = [int(round(v)) for v in vs]
    elif c.chance(0.15):
        k = 10 ** c.u(-200, -4) if c.chance(0.3) else 10 ** c.u(-14, -4)
        vs, shape = [v * k for v in vs], "minute"
    return ts, vs, shape


def seq(ts, vs):
    return DgSampledSequence[float](ts, vs)


def tol(xs):
    return 1e-9 * (1 + max(abs(float(x)) for x in xs))


def calculus(c):
    tk = c.pick(["float", "decimal", "int", "mixed int float"])
    ts, vs, shape = signal(c, tk)
    c.note(ts=ts, vs=vs)
    s = seq(ts, vs)
    t, v = [F(float(x)) for x in ts], [F(x) for x in vs]
    n = len(ts)
    # integral
    I = seq_integrate(s)
    tot, ref = F(0), []
    for i in range(n - 1):
        tot += (v[i] + v[i + 1]) / 2 * (t[i + 1] - t[i])
        ref.append(tot)
    c.close([float(x) for x in I.timestamps], [float(x) for x in ts[1:]], "the integral is given at each timestamp after the first")
    c.close(list(I.values), [float(x) for x in ref], "exact integral of the piecewise linear signal", atol=tol(ref) + 1e-9 * max(map(abs, map(float, vs))), rtol=1e-9)
    c.count("integrals")
    c.situation("integral", tk, shape)
    # derivative
    d = seq_differentiate(s)
    c.close(list(d.timestamps), [float((a + b) / 2) for a, b in zip(t, t[1:])], "the derivative is given at the midpoints")
    sl = [(v[i + 1] - v[i]) / (t[i + 1] - t[i]) for i in range(n - 1)]
    c.close(list(d.values), [float(x) for x in sl], "slope of each interval", atol=tol(sl), rtol=1e-6)
    c.count("derivatives")
    c.situation("derivative", tk, shape)
    # accumulation
    a = seq_accumulate(s)
    c.eq([*a.timestamps], [*ts], "running sums at the same timestamps")
    run, acc = [], F(0)
    for x in v:
        acc += x
        run.append(float(acc))
    c.close(list(a.values), run, "running sums", atol=tol(run) + 1e-9 * max(map(abs, run)))
    c.count("sums")
    # linearity
    ws = [c.u(-3, 3) for _ in ts]
    k = c.u(-3, 3)
    mix = seq(ts, [x + k * y for x, y in zip(vs, ws)])
    for name, f in (("integral", seq_integrate), ("derivative", seq_differentiate), ("sum", seq_accumulate)):
        p, q, r = f(s).values, f(seq(ts, ws)).values, f(mix).values
        e = [x + k * y for x, y in zip(p, q)]
        c.close(list(r), e, f"{name} is linear", atol=1e-6 * (1 + max(map(abs, e)) + max(map(abs, p)) + max(map(abs, q))))
    c.count("linear")
    # differentiation inverts integration up to averaging
    if n >= 3:
        di = seq_differentiate(I)
        e = [float((v[i + 1] + v[i + 2]) / 2) for i in range(n - 2)]
        gap = min(float(b - a_) for a_, b in zip(t, t[1:]))
        c.close(list(di.values), e, "differentiation undoes integration up to averaging", atol=1e-9 * (1 + max(map(abs, e))) + 1e-13 * max(map(abs, [float(x) for x in ref])) / gap + 1e-6)
    if n >= 2 and shape != "spiky":
        dd = seq_integrate(seq(d.timestamps, d.values)) if n > 2 else None
        if dd is not None:
            c.true(len(dd) == n - 2, "number of samples")
    c.eq([*s.values], [*vs], "the signal itself is unchanged")
    for f in (seq_integrate, seq_differentiate):
        c.raises(lambda: f(DgSampledSequence[float]([], [])), f"{f.__name__} of an empty sequence is refused")


def crossings(c):
    tk = c.pick(["float", "decimal", "int"])
    ts, vs, shape = signal(c, tk)
    th = c.pick([0.0, 0.0, c.u(-2, 2), 0.5, 10.0, -1])
    if any(v == th for v in vs):
        vs = [v + 0.1234 for v in vs]
    if any(v == th for v in vs):
        return
    c.note(ts=ts, vs=vs, threshold=th)
    got = find_crossings(seq(ts, vs), th)
    t, v = [F(x) for x in ts], [F(x) - F(th) for x in vs]
    ref = []
    for i in range(len(ts) - 1):
        if (v[i] > 0) != (v[i + 1] > 0):
            ref.append((i, t[i] + (t[i + 1] - t[i]) * v[i] / (v[i] - v[i + 1])))
    c.eq(len(got), len(ref), "exactly one crossing for each interval with a change of sign", crossings=got, expected=[float(x) for _, x in ref])
    for x, (i, r) in zip(got, ref):
        c.close(float(x), float(r), "crossing at the zero of the linear interpolation", atol=1e-9 * (1 + abs(float(r))), rtol=1e-9)
        c.true(float(ts[i]) - 1e-9 <= float(x) <= float(ts[i + 1]) + 1e-9, "crossing within its interval", got=x)
        c.true(isinstance(x, D) == (tk == "decimal"), "type of the crossing times follows the timestamps", got=x)
    c.true(all(float(a) <= float(b) + 1e-12 for a, b in zip(got, got[1:])), "crossings in increasing order", got=got)
    c.count("crossings", len(ref))
    if not ref:
        c.count("no crossing")
    c.situation("crossing", tk, shape, min(len(ref), 3))


def through(c):
    """signals with samples exactly on the threshold: a passage counts once, wherever between the two sides it is placed"""
    tk = c.pick(["float", "decimal", "int"])
    n = c.int(3, 14)
    ts = times(c, n, tk)
    th = c.pick([0.0, 0.0, 0, 1.5, -2.0, 10])
    whole = c.chance(0.3)
    vs = [th + (c.sign() * c.int(1, 3) if whole else c.sign() * c.u(0.01, 3)) for _ in range(n)]
    for i in range(1, n - 1):
        if c.chance(0.45):
            vs[i] = th
    if whole:
        vs = [int(v) if float(v).is_integer() else v for v in vs]
    v = [F(x) - F(th) for x in vs]
    sides = [i for i in range(n) if v[i] != 0]
    runs = list(zip(sides, sides[1:]))
    c.note(ts=ts, vs=vs, threshold=th)
    got = [float(x) for x in find_crossings(seq(ts, vs), th)]
    c.true(all(x <= y + 1e-12 for x, y in zip(got, got[1:])), "crossings in increasing order", got=got)
    n_pass = n_touch = n_on = 0
    for i, j in runs:
        lo, hi = (ts[i], ts[j]) if j == i + 1 else (ts[i + 1], ts[j - 1])
        here = [x for x in got if float(ts[i]) < x < float(ts[j])]
        if (v[i] > 0) != (v[j] > 0):
            n_pass += 1
            n_on += j > i + 1
            c.eq(len(here), 1, "a passage through the threshold is reported exactly once", passage=(ts[i], ts[j]), got=got)
            c.true(float(lo) - 1e-9 <= here[0] <= float(hi) + 1e-9, "a passage is placed where the signal is on the threshold", passage=(lo, hi), got=got)
        elif j == i + 1:
            c.eq(here, [], "no crossing where the signal stays on one side", interval=(ts[i], ts[j]), got=got)
        else:
            n_touch += 1
    c.count("passages on a sample", n_on)
    c.situation("through", tk, min(n_pass, 3), min(n_touch, 2), n_on > 0, whole)


FAMILIES = [("calculus", calculus, 500, 15000), ("crossings", crossings, 800, 20000), ("through", through, 500, 12000)]
