"""Q01: sampled sequences are well-formed, immutable and hash consistently."""
import copy
import pickle
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

import numpy as np

from vlib import world as W
from dg_commons.planning.trajectory import Trajectory
from dg_commons.seq.sequence import DgSampledSequence, DgSampledSequenceBuilder

ID = "Q01"
RULE = ("distinct (way of building, timestamp type, defect or none) classes of candidate sequences whose acceptance or refusal, content, "
        "immutability and hash were judged")
REQUIRE = {"accepted": 800, "refused": 600, "tampered": 800, "hashed": 600, "built": 300, "long": 60}
MIN_SITUATIONS = 35


def times(c, n, kind):
    t, out = c.u(-10, 10), []
    for _ in range(n):
        out.append(t)
        t += 10 ** c.u(-4, 1)
    if kind == "float":
        return out
    if kind == "decimal":
        k = c.int(-50, 50)
        r = []
        for _ in range(n):
            r.append(D(k) / 100)
            k += c.int(1, 30)
        return r
    k, r = c.int(-20, 20), []
    for i in range(n):
        r.append(k if kind == "int" or c.chance(0.5) else k + 0.5)
        k += c.int(1, 5)
    return r


def value(c, what):
    if what == "float":
        return c.u(-5, 5)
    if what == "str":
        return c.pick(["a", "b", "c"])
    if what == "tuple":
        return (c.u(-1, 1), c.int(0, 4))
    return W.state(c, "car", W.parameters(c, "car"))


def build(c, ts, vs, how):
    if how == "list":
        return DgSampledSequence[float](list(ts), list(vs))
    if how == "tuple":
        return DgSampledSequence[float](timestamps=tuple(ts), values=tuple(vs))
    if how == "builder":
        b = DgSampledSequenceBuilder[float]()
        for t, v in zip(ts, vs):
            b.add(t, v)
        return b.as_sequence()
    return DgSampledSequenceBuilder[float](list(ts), list(vs)).as_sequence()


HOW = ("list", "tuple", "builder", "filled builder")


def good(c):
    tk = c.pick(["float", "decimal", "int", "mixed int float"])
    n = c.pick([0, 1, 1, 2, 3, 5, 12])
    ts = times(c, n, tk)
    vk = c.pick(["float", "str", "tuple", "state"])
    vs = [value(c, vk) for _ in range(n)]
    how = HOW[c.index % 4]
    c.note(ts=ts, vs=vs, how=how)
    s = build(c, ts, vs, how)
    c.eq(tuple(s.timestamps), tuple(ts), "timestamps preserved")
    c.true([type(t) for t in s.timestamps] == [type(t) for t in ts], "types of timestamps preserved", got=s.timestamps)
    c.eq(tuple(s.values), tuple(vs), "values preserved")
    c.eq(len(s), n, "length")
    c.eq(list(s), list(zip(ts, vs)), "iteration gives the samples in order")
    c.eq(tuple(s.get_sampling_points()), tuple(ts), "sampling points")
    if n:
        c.eq((s.get_start(), s.get_end()), (ts[0], ts[-1]), "first and last timestamp")
    else:
        c.raises(s.get_start, "an empty sequence has no start")
        c.raises(s.get_end, "an empty sequence has no end")
    c.count("accepted")
    c.situation(how, tk, "accepted")
    # containers it was made from
    lt, lv = list(ts), list(vs)
    if how == "builder" or how == "filled builder":
        b = DgSampledSequenceBuilder[float]()
        for t, v in zip(ts, vs):
            b.add(t, v)
        q = b.as_sequence()
        if n:
            b.add(ts[-1] + 1, vs[0])
            c.eq(len(b), n + 1, "builder keeps growing")
            b.values[0] = "tampered"
            b.timestamps[0] = b.timestamps[0] - 1
    else:
        q = DgSampledSequence[float](lt, lv)
        lt.append(99), lv.append(99)
        if n:
            lt[0], lv[0] = -1e9, "tampered"
        lt.reverse(), lv.clear()
    c.eq(tuple(q.timestamps), tuple(ts), "later changes of the containers do not matter (timestamps)")
    c.eq(tuple(q.values), tuple(vs), "later changes of the containers do not matter (values)")
    # attributes

    def set_t():
        q.timestamps = tuple(ts)

    def set_v():
        q.values = tuple(vs)

    c.raises(set_t, "timestamps can be replaced")
    c.raises(set_v, "values can be replaced")

    def item(a):
        a[0] = 0

    c.raises(lambda: item(q.timestamps), "timestamps can be modified in place")
    c.raises(lambda: item(q.values), "values can be modified in place")
    c.eq(tuple(q.timestamps), tuple(ts), "timestamps after tampering")
    c.eq(tuple(q.values), tuple(vs), "values after tampering")
    c.count("tampered")
    # equality and hash
    other = build(c, ts, [copy.deepcopy(v) for v in vs], c.pick(HOW))
    c.true(s == other and not s != other, "equal content, equal sequences")
    c.eq(hash(s), hash(other), "equal sequences hash equally")
    c.true(hash(s) == hash(copy.deepcopy(s)) and copy.deepcopy(s) == s, "a copy is equal and hashes equally")
    c.true(len({s, other}) == 1, "equal sequences are one element of a set")
    if n:
        i = c.int(0, n - 1)
        vs2 = list(vs)
        vs2[i] = "different"
        c.true(build(c, ts, vs2, how) != s, "sequences with different values differ")
        ts2 = list(ts)
        ts2[-1] = ts2[-1] + 1
        c.true(build(c, ts2, vs, how) != s, "sequences with different timestamps differ")
        c.true(build(c, ts[:-1], vs[:-1], how) != s, "a prefix differs")
    c.count("hashed")


def bad(c):
    tk = c.pick(["float", "decimal", "int"])
    n = 1 if c.chance(0.15) else c.int(2, 9)
    ts = times(c, n, tk)
    vs = [c.u(-1, 1) for _ in ts]
    i = c.int(0, max(n - 2, 0))
    defect = c.pick(["one more time", "one more value", "string", "none", "complex", "list"] if n == 1 else ["repeated", "decreasing", "one more time", "one more value", "string", "none", "mixed decimal", "complex", "nan", "list"])
    how = HOW[c.index % 4]
    good_ts = list(ts)
    if defect == "repeated":
        ts[i + 1] = ts[i]
    elif defect == "decreasing":
        ts[i], ts[i + 1] = ts[i + 1], ts[i]
    elif defect == "one more time":
        ts.append(ts[-1] + 1)
    elif defect == "one more value":
        vs.append(0.0)
    elif defect == "string":
        ts[c.int(0, n - 1)] = "1"
    elif defect == "none":
        ts[c.int(0, n - 1)] = None
    elif defect == "complex":
        ts[c.int(0, n - 1)] = 1j
    elif defect == "list":
        ts[c.int(0, n - 1)] = [1.0]
    elif defect == "nan":
        ts[c.int(0, n - 1)] = float("nan")
    elif defect == "mixed decimal":
        k = c.int(0, n - 1)
        ts = [float(t) if tk == "decimal" else t for t in ts]
        ts[k] = D(repr(ts[k]))
        if tk == "decimal" and n > 1 and c.chance(0.5):  # integers do not mix either
            ts = [D(2 * j) if j != k else 2 * j for j in range(n)]
    c.note(ts=ts, vs=vs, defect=defect, how=how)
    if defect in ("one more time", "one more value") and how == "builder":
        how = "list"

    c.raises(lambda: build(c, ts, vs, how), f"a sequence with a defect is accepted: {defect}", ts=ts)
    c.raises(lambda: Trajectory(list(ts), [W.state(c, "car", W.VehicleParameters.default_car()) for _ in vs]), f"a trajectory with a defect is accepted: {defect}", ts=ts)
    c.count("refused")
    c.situation(how, tk, defect, "single" if n == 1 else "several")


def long(c):
    """Long sequences, sound or with a single defect anywhere in them"""
    n = int(10 ** c.u(2.3, 3.9))
    tk = c.pick(["float", "decimal", "int"])
    t0, h = c.pick([0, -5, 1000]), c.pick([1, 3])
    ts = [t0 + h * i for i in range(n)]
    ts = [D(t) / 20 for t in ts] if tk == "decimal" else [t / 20 for t in ts] if tk == "float" else ts
    vs = list(range(n))
    how = HOW[c.index % 4]
    s = build(c, ts, vs, how)
    c.true(s.timestamps == tuple(ts) and s.values == tuple(vs), "a long sequence is preserved", n=n)
    k = c.pick([c.int(1, n - 2), n - 2, c.int(n // 2, n - 2)])
    defect = c.pick(["repeated", "decreasing", "one more time", "one more value", "string", "none", "mixed decimal", "nan"])
    bad_t, bad_v = list(ts), list(vs)
    if defect == "repeated":
        bad_t[k + 1] = bad_t[k]
    elif defect == "decreasing":
        bad_t[k], bad_t[k + 1] = bad_t[k + 1], bad_t[k]
    elif defect == "one more time":
        bad_t.append(bad_t[-1] + 1)
    elif defect == "one more value":
        bad_v.append(0)
    elif defect == "mixed decimal":
        bad_t[k] = float(bad_t[k]) if tk == "decimal" else D(repr(bad_t[k]))
    else:
        bad_t[k] = {"string": "1", "none": None, "nan": float("nan")}[defect]
    if how == "builder" and defect.startswith("one more"):
        how = "list"
    c.raises(lambda: build(c, bad_t, bad_v, how), f"a long sequence with a defect is accepted: {defect}", n=n, at=k, how=how)
    c.count("long")
    c.situation("long", how, tk, defect, "late" if k > 500 else "early")


def building(c):
    """A builder refuses what does not follow, and stays usable"""
    tk = c.pick(["float", "decimal", "int"])
    b = DgSampledSequenceBuilder[float]()
    ref_t, ref_v = [], []
    for t in times(c, c.int(2, 12), tk):
        if ref_t and c.chance(0.4):
            wrong = c.pick([ref_t[-1], ref_t[0], ref_t[-1] - 1])
            c.raises(lambda: b.add(wrong, 0.0), "a timestamp that does not follow is refused", wrong=wrong, have=ref_t)
            c.situation("builder", tk, "refusal")
        v = c.u(-1, 1)
        b.add(t, v)
        ref_t.append(t), ref_v.append(v)
        c.eq(len(b), len(ref_t), "builder length")
        if c.chance(0.3):
            s = b.as_sequence()
            c.eq((tuple(s.timestamps), tuple(s.values)), (tuple(ref_t), tuple(ref_v)), "sequence built so far")
            if c.chance(0.5):  # what was collected may still be replaced
                i = c.int(0, len(ref_v) - 1)
                old = tuple(ref_v)
                ref_v[i] = b.values[i] = c.u(2, 3)
                c.eq(tuple(s.values), old, "what was built stays as it was")
                s = b.as_sequence()
                c.eq((tuple(s.timestamps), tuple(s.values)), (tuple(ref_t), tuple(ref_v)), "sequence built after a value was replaced")
                c.count("replaced")
    s = b.as_sequence()
    c.eq((tuple(s.timestamps), tuple(s.values)), (tuple(ref_t), tuple(ref_v)), "built sequence")
    c.true(b.XT is float, "declared value type of the builder")
    c.true(s.XT is float, "declared value type of the built sequence")
    b2 = DgSampledSequenceBuilder[float]()
    c.eq(len(b2), 0, "a new builder is empty")
    c.eq(len(b2.as_sequence()), 0, "a new builder builds the empty sequence")
    b2.add(1, 2.0)
    c.eq(list(b2.as_sequence()), [(1, 2.0)], "and goes on from there")
    c.count("built")


FAMILIES = [("accepted", good, 1200, 20000), ("refused", bad, 1000, 15000), ("building", building, 400, 6000), ("long", long, 100, 1500)]
