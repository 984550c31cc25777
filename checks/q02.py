"""Q02: sequence lookups agree with the mathematical definition."""
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

import numpy as np

from checks.q01 import times
from vlib import world as W
from dg_commons.planning.trajectory import Trajectory
from dg_commons.seq.sequence import DgSampledSequence, UndefinedAtTime, iterate_with_dt

ID = "Q02"
RULE = ("distinct (timestamp type, query type, place of the query, kind of value) classes in which real lookups were compared with a reference "
        "computed in exact rational arithmetic")
REQUIRE = {"lookups": 8000, "subsequences": 1500, "transformed": 400, "shifted": 400, "intervals": 1000}
NAN = float("nan")
MIN_SITUATIONS = 60


def F(t):
    return Fraction(t)


def make(c):
    tk = c.pick(["float", "decimal", "int", "mixed int float"])
    n = c.pick([1, 1, 2, 3, 5, 8, 20])
    if c.chance(0.02):
        n = c.pick([150, 700, 2500])
    ts = times(c, n, tk)
    vk = c.pick(["float", "state", "array", "int"])
    if vk == "float":
        vs = [c.u(-5, 5) for _ in ts]
    elif vk == "int":
        vs = [c.int(-5, 5) for _ in ts]
    elif vk == "state":
        k = c.pick(W.KINDS)
        p = W.parameters(c, k)
        vs = [W.state(c, k, p) for _ in ts]
    else:
        vs = [np.array([c.u(-1, 1), c.u(-1, 1)]) for _ in ts]
    return tk, ts, vk, vs


def num(v):
    return np.atleast_1d(np.asarray(v, float)) if isinstance(v, (int, float, np.ndarray)) else W.vals(v)


def queries(c, ts, tk):
    """(place, query time, of the same or another numeric type)"""
    out = []
    i = c.int(0, len(ts) - 1)
    out.append(("at a sample", ts[i]))
    out.append(("first", ts[0]))
    out.append(("last", ts[-1]))
    step = D("0.37") if tk == "decimal" else (1 if tk == "int" else 0.37)
    out.append(("before", ts[0] - step))
    out.append(("after", ts[-1] + step))
    if len(ts) > 1:
        j = c.int(0, len(ts) - 2)
        a, b = ts[j], ts[j + 1]
        r = D(c.int(1, 9)) / 10 if tk == "decimal" else c.u(0.01, 0.99)
        out.append(("between", a + (b - a) * r))
        out.append(("just after", float(a) + 1e-9 * max(1, abs(float(a)))))
        out.append(("just before", float(b) - 1e-9 * max(1, abs(float(b)))))
    q = []
    for p, t in out:
        q.append((p, t, "same type"))
        if isinstance(t, D):
            q.append((p, float(t), "float query"))
        elif isinstance(t, float):
            q.append((p, D(t), "decimal query"))
        else:
            q.append((p, D(t), "decimal query"))
            q.append((p, float(t), "float query"))
    return q


def lookups(c):
    tk, ts, vk, vs = make(c)
    s = DgSampledSequence[float](ts, vs) if c.chance(0.8) or vk != "state" else Trajectory(ts, vs)
    before = ([*ts], [num(v).copy() for v in vs])
    c.note(ts=ts, vs=vs)
    ref = [F(t) for t in ts]
    for place, t, how in queries(c, ts, tk):
        q = F(t)
        # exact
        if q in ref:
            c.true(s.at(t) is vs[ref.index(q)], "exact lookup returns the value of the sample", t=t, got=s.at(t))
        else:
            c.raises(lambda: s.at(t), "exact lookup between samples fails", exc=UndefinedAtTime, t=t, ts=ts)
        # at or before
        k = sum(r <= q for r in ref) - 1
        if k < 0:
            c.raises(lambda: s.at_or_previous(t), "lookup before the start fails", exc=UndefinedAtTime, t=t, ts=ts)
        else:
            c.true(s.at_or_previous(t) is vs[k], "value of the latest sample not after the query", t=t, ts=ts, got=s.at_or_previous(t), expected=vs[k])
        # interpolation
        v = s.at_interp(t)
        if k < 0:
            e = num(vs[0])
        elif k == len(ts) - 1:
            e = num(vs[-1])
        else:
            x = float((q - ref[k]) / (ref[k + 1] - ref[k]))
            e = num(vs[k]) * (1 - x) + num(vs[k + 1]) * x
        if vk == "state":
            c.true(type(v) is type(vs[0]), "interpolation keeps the type")
        exact = q in ref or k < 0 or k == len(ts) - 1
        span = max(np.abs(num(a)).max() for a in vs) + 1
        # time differences are formed in floating point
        slope = 0 if exact or len(ts) == 1 else 1e-15 * max(abs(float(a)) for a in ts) / float(min(b - a for a, b in zip(ref, ref[1:])))
        c.close(num(v), e, "linear interpolation", atol=(1e-12 + 20 * slope) * span, rtol=1e-12, t=t, ts=ts, vs=vs)
        c.count("lookups", 3)
        c.situation(tk, how, place, vk)
    c.true([*s.timestamps] == before[0] and all(np.array_equal(num(a), b) for a, b in zip(s.values, before[1])), "lookups leave the sequence untouched")


def parts(c):
    tk, ts, vk, vs = make(c)
    s = DgSampledSequence[float](ts, vs)
    c.note(ts=ts, vs=vs)
    ref = [F(t) for t in ts]
    qs = [t for _, t, how in queries(c, ts, tk) if how == "same type" or c.chance(0.3)]
    for _ in range(4):
        a, b = c.pick(qs), c.pick(qs)
        if a > b:
            c.raises(lambda: s.get_subsequence(a, b), "a reversed interval is refused", a=a, b=b)
            a, b = b, a
        if c.chance(0.15):
            b = a
        sub = s.get_subsequence(a, b)
        keep = [i for i, r in enumerate(ref) if F(a) <= r <= F(b)]
        c.eq([*sub.timestamps], [ts[i] for i in keep], "timestamps within the closed interval", lo=a, hi=b, ts=ts)
        c.true(len(sub.values) == len(keep) and all(sub.values[j] is vs[i] for j, i in enumerate(keep)), "values within the closed interval", a=a, b=b)
        c.count("subsequences")
        c.situation("subsequence", tk, "empty" if not keep else "all" if len(keep) == len(ts) else "part")
    d = D(c.int(-500, 500)) / 100 if tk == "decimal" else c.int(-9, 9) if tk == "int" else c.u(-9, 9)
    sh = s.shift_timestamps(d)
    c.close([float(x) for x in sh.timestamps], [float(t) + float(d) for t in ts], "all timestamps moved by the shift", atol=1e-9)
    c.true(all(x is y for x, y in zip(sh.values, vs)) and len(sh) == len(ts), "values unchanged by a shift")
    c.count("shifted")
    c.situation("shift", tk)
    drop = {i for i in range(len(ts)) if c.chance(0.3)}
    calls = []

    def f(v):
        i = len(calls)
        calls.append(v)
        return None if i in drop else (i, v)

    tr = s.transform_values(f, tuple)
    c.true(len(calls) == len(ts) and all(x is y for x, y in zip(calls, vs)), "each value is mapped once, in order")
    keep = [i for i in range(len(ts)) if i not in drop]
    c.eq([*tr.timestamps], [ts[i] for i in keep], "timestamps of a transformed sequence")
    c.true(len(tr.values) == len(keep) and all(tr.values[j][0] == i and tr.values[j][1] is vs[i] for j, i in enumerate(keep)), "values of a transformed sequence")
    for falsy in (0, 0.0, False, "", NAN):
        z = s.transform_values(lambda v: falsy, float)
        c.eq([*z.values], [falsy] * len(ts), "values mapped to something falsy are kept")
    c.count("transformed")
    c.situation("transform", tk, "dropping" if drop else "keeping")
    its = list(iterate_with_dt(s))
    c.eq(len(its), len(ts) - 1, "one interval between each two samples")
    for i, it in enumerate(its):
        c.close([it.t0, it.t1, it.dt], [float(ts[i]), float(ts[i + 1]), float(ref[i + 1] - ref[i])], "interval with its true duration", atol=1e-9, rtol=1e-9)
        c.true(it.v0 is vs[i] and it.v1 is vs[i + 1], "values at the ends of an interval")
        c.count("intervals")
    c.eq([*s.timestamps], ts, "the sequence itself is unchanged")


FAMILIES = [("lookups", lookups, 600, 15000), ("parts", parts, 700, 15000)]
