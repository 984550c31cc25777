"""M03: vector algebra and array conversion of all state and command types."""
import math
from dataclasses import fields, replace

import numpy as np

from vlib import world as W

ID = "M03"
RULE = ("distinct (type, operation) pairs for which random component values were computed by the repository and "
        "compared component by component with an independent reference")
TYPES = sorted({*W.STATES.values(), *W.COMMANDS.values()}, key=lambda t: t.__name__)
REQUIRE = {"checks": 3000}
MIN_SITUATIONS = len(TYPES) * 6


def names(t):
    return [f.name for f in fields(t) if f.name not in ("idx", "lights")]


def rnd(c, t):
    def v():
        r = c.rng.random()
        if r < 0.1:
            return 0.0
        if r < 0.2:
            return float(c.int(-5, 5))
        return c.sign() * 10 ** c.u(-3, 4)

    return t(**{n: v() for n in names(t)})


def case(c):
    t = TYPES[c.index % len(TYPES)]
    ns = names(t)
    a, b = rnd(c, t), rnd(c, t)
    k = c.pick([0.0, 1.0, -1.0, 2.0, c.u(-5, 5), c.u(-5, 5), float(c.int(-4, 4)), c.int(-4, 4), c.int(2, 9)])
    if c.chance(0.2):
        k = np.float64(k)
    va, vb = {n: getattr(a, n) for n in ns}, {n: getattr(b, n) for n in ns}
    ida, idb = dict(va), dict(vb)
    c.note(type=t.__name__, a=va, b=vb, k=k)

    def comp(res, ref, op):
        c.true(type(res) is t, f"{op} of {t.__name__} changes the type", got=type(res))
        for n in ns:
            c.close(getattr(res, n), ref[n], f"{t.__name__}: {op}, component {n}", atol=1e-12, rtol=1e-12)
        c.situation(t.__name__, op)

    comp(a + b, {n: va[n] + vb[n] for n in ns}, "a+b")
    comp(a - b, {n: va[n] - vb[n] for n in ns}, "a-b")
    comp(a * k, {n: va[n] * k for n in ns}, "a*k")
    if not isinstance(k, np.float64):
        comp(k * a, {n: va[n] * k for n in ns}, "k*a")
    comp(a.__rmul__(k), {n: va[n] * k for n in ns}, "rmul")
    kk = k if k else 3.0
    comp(a / kk, {n: va[n] / kk for n in ns}, "a/k")
    comp(a - a, {n: 0.0 for n in ns}, "a-a")
    s = c.u(0, 1)
    comp(a * (1 - s) + b * s, {n: va[n] * (1 - s) + vb[n] * s for n in ns}, "interpolation")
    c.true({n: getattr(a, n) for n in ns} == ida and {n: getattr(b, n) for n in ns} == idb, f"{t.__name__}: an operand was modified")
    # arrays
    arr = a.as_ndarray()
    n_decl = t.get_n_states() if hasattr(t, "get_n_states") else t.get_n_commands()
    c.eq(n_decl, len(ns), f"{t.__name__}: declared number of components")
    c.eq(arr.shape, (len(ns),), f"{t.__name__}: array shape")
    c.eq(sorted(t.idx.keys()), sorted(ns), f"{t.__name__}: index names")
    c.eq(sorted(t.idx.values()), list(range(len(ns))), f"{t.__name__}: index positions")
    for n in ns:
        c.eq(float(arr[t.idx[n]]), float(va[n]), f"{t.__name__}: component {n} in array")
    back = t.from_array(arr.copy())
    comp(back, va, "array round trip")
    c.true(back == a, f"{t.__name__}: round trip is not equal to the original", a=a, back=back)
    c.eq(hash(back), hash(a), f"{t.__name__}: equal objects must hash equally")
    cp = replace(a)
    c.true(cp == a and hash(cp) == hash(a), f"{t.__name__}: copies are equal and hash equally")
    other = replace(a, **{c.pick(ns): 12345.678})
    c.true(other != a, f"{t.__name__}: different values compare equal")
    # mixing types
    ot = c.pick([x for x in TYPES if x is not t])
    o = rnd(c, ot)
    c.raises(lambda: a + o, f"{t.__name__}+{ot.__name__} must be refused")
    c.raises(lambda: a - o, f"{t.__name__}-{ot.__name__} must be refused")
    c.raises(lambda: o + a, f"{ot.__name__}+{t.__name__} must be refused")
    c.situation(t.__name__, "mixing", ot.__name__)
    if hasattr(a, "lights"):
        from dg_commons.sim.models.vehicle_ligths import LightsValues

        l = c.pick(sorted(LightsValues))
        al = replace(a, lights=l)
        c.eq((al * 2.0).lights, l, "scaling keeps the lights")
        c.eq((al + b).lights, l, "adding keeps the lights")


FAMILIES = [("algebra", case, 40 * len(TYPES), 1500 * len(TYPES))]
