"""U01: small helpers everything else builds on."""
import itertools
import math
import time
from dataclasses import dataclass

import numpy as np
from frozendict import frozendict
from zuper_commons.types import ZValueError

import dg_commons
from vlib import simkit as K, world as W
from vlib.core import clone
from dg_commons.sim.models import extract_2d_position_from_state, extract_pose_from_state, extract_vel_from_state, kmh2ms, ms2kmh
from dg_commons.sim.models.utils import ms2mph
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel
from dg_commons.sim.simulator import Simulator
from dg_commons.sim.utils import run_simulation, who_collided
from dg_commons.time import time_function
from dg_commons.utils_toolz import fd, fkeyfilter, fs, fvalmap, iterate_dict_combinations, valmap

ID = "U01"
RULE = "distinct (helper, size of the argument, kind of argument or outcome) classes compared with their definition"
REQUIRE = {"combinations": 3000, "combinations of options alike": 1000, "maps": 900, "timed": 900, "raised": 200, "logged": 600, "extracted": 600, "converted": 500, "runs": 30, "collided": 6, "nobody collided": 5}
MIN_SITUATIONS = 50


# ------------------------------------------------------------------ collections
def collection(c, n):
    xs = [c.pick([i, f"v{i}", (i, i + 1), None if i == 0 else -i, frozenset([i])]) for i in range(n)]
    k = c.pick(["list", "tuple", "frozenset", "set", "dict keys"])
    return k, {"list": list, "tuple": tuple, "frozenset": frozenset, "set": set, "dict keys": lambda v: dict.fromkeys(v).keys()}[k](xs)


def combos(c):
    n = c.int(0, 5)
    keys = c.rng.sample(["P1", "P2", "Ego", 3, 4.5, ("a", 1), "", frozenset([1])], n)
    opts, kinds = {}, []
    for k in keys:
        kind, o = collection(c, c.pick([0, 1, 2, 3, 4]) if c.chance(0.2) else c.int(1, 4))
        opts[k] = o
        kinds.append(kind)
    arg = c.pick([dict, frozendict])(opts)
    snapshot = repr(arg)
    got = list(iterate_dict_combinations(arg))
    c.eq(repr(arg), snapshot, "the options are not modified")
    want = [dict(zip(keys, x)) for x in itertools.product(*[list(opts[k]) for k in keys])]
    c.eq(len(got), math.prod(len(opts[k]) for k in keys), "number of combinations")
    for g, w in zip(got, want):
        c.true(dict(g) == w and list(g) == keys, "every combination, the last player varying first", got=dict(g), expected=w)
        c.true(isinstance(g, frozendict), "combinations are immutable")
        hash(g)
        c.count("combinations")
    c.eq(len(set(got)), len(got), "every combination once")
    # repeated use, partial use
    it = iterate_dict_combinations(arg)
    if got:
        c.eq(next(it), got[0], "an iterator begins anew")
    c.situation("combinations", n, *sorted(set(kinds)))


def alike(c):
    """options that repeat, that compare equal without being the same, or that cannot be hashed: one combination per choice"""
    n = c.int(1, 4)
    keys = c.rng.sample(["P1", "P2", "Ego", 3, ("a", 1)], n)
    pool = [1, True, 1.0, 0, False, 0.0, -0.0, "a", "a", None, (), [], [1], {}, {"x": 1}, np.float64(1), 2, 2]
    opts = {k: [c.pick(pool) for _ in range(c.int(1, 5))] for k in keys}
    got = list(iterate_dict_combinations(opts))
    want = list(itertools.product(*[opts[k] for k in keys]))
    c.eq(len(got), len(want), "one combination per choice of options", options=opts)
    for g, w in zip(got, want):
        c.true(list(g) == keys and all(g[k] is x for k, x in zip(keys, w)), "the options themselves are combined", got=dict(g), expected=w)
        c.count("combinations")
        c.count("combinations of options alike")
    c.situation("alike", n, len(want) > len({repr(w) for w in want}))


def maps(c):
    for _ in range(4):
        n = c.int(0, 8)
        keys = c.rng.sample(range(100), n)
        a = {k: c.int(-50, 50) for k in keys}
        arg = c.pick([dict, frozendict])(a)
        f = c.pick([lambda k: k % 2 == 0, lambda k: k > 50, lambda k: False, lambda k: True, lambda k: k % 3])
        r = fkeyfilter(f, arg)
        c.true(isinstance(r, frozendict) and list(r.items()) == [(k, v) for k, v in a.items() if f(k)], "the entries whose key fulfils the predicate", got=dict(r))
        g = c.pick([lambda v: v * 2, str, lambda v: None, lambda v: (v, v), lambda v: v > 0])
        r = fvalmap(g, arg)
        c.true(isinstance(r, frozendict) and list(r.items()) == [(k, g(v)) for k, v in a.items()], "the values mapped", got=dict(r))
        r = valmap(g, arg)
        c.true(type(r) is dict and list(r.items()) == [(k, g(v)) for k, v in a.items()], "the values mapped into a dictionary", got=dict(r))
        r = fd(a)
        c.true(isinstance(r, frozendict) and dict(r) == a, "frozen dictionary")
        if a:
            before = dict(r)
            a[keys[0]] = "changed"
            c.true(dict(r) == before, "a frozen dictionary does not follow its origin")
        vs = [c.int(0, 9) for _ in range(n)]
        s = fs(c.pick([list, tuple, set])(vs))
        c.true(type(s) is frozenset and s == set(vs), "frozen set")
        c.count("maps", 5)
        c.situation("maps", n, type(arg).__name__)
    c.raises(lambda: fkeyfilter(lambda k: 1 / 0, {1: 2}), "exceptions of the predicate come through", exc=ZeroDivisionError)
    c.raises(lambda: fvalmap(lambda k: 1 / 0, {1: 2}), "exceptions of the function come through", exc=ZeroDivisionError)


# ------------------------------------------------------------------ timing
class Box:
    """Collects what is logged by dg_commons, instead of printing it"""

    def __init__(self):
        self.out = []

    def __enter__(self):
        self.cls = type(dg_commons.logger)
        self.orig = self.cls.log_entry
        self.cls.log_entry = lambda log, le: self.out.append((str(le.level), str(le.msg)))
        return self

    def __exit__(self, *_):
        self.cls.log_entry = self.orig


class Odd(BaseException):
    pass


def timing(c):
    with Box() as box:
        for _ in range(8):
            calls = []
            out = c.pick(["value", "value", "none", "error", "odd error", "generator"])
            err = c.pick([ValueError, KeyError, StopIteration, ZeroDivisionError])("x")
            obj = object()

            def victim(a, b=2, *rest, k=None, **kw):
                """Doc"""
                calls.append((a, b, rest, k, kw))
                if slow:
                    end = time.process_time() + 0.03
                    while time.process_time() < end:
                        pass
                if out == "error":
                    raise err
                if out == "odd error":
                    raise Odd()
                return {"value": obj, "none": None, "generator": iter([1, 2])}[out]

            slow = c.chance(0.15)
            t = time_function(victim)
            c.eq((t.__name__, t.__doc__, t.__wrapped__ is victim), ("victim", "Doc", True), "the decorated function keeps its identity")
            box.out.clear()
            args, kw = c.pick([((1,), {}), ((1, 3, 4), {"k": 5}), ((), {"a": 7, "z": 8})])
            before = time.perf_counter()
            try:
                got = ("returned", t(*args, **kw))
            except BaseException as e:
                got = ("raised", e)
            spent = time.perf_counter() - before
            if out == "error":
                c.true(got[0] == "raised" and got[1] is err, "exceptions come through", got=got)
                c.count("raised")
            elif out == "odd error":
                c.true(got[0] == "raised" and type(got[1]) is Odd, "exceptions come through", got=got)
                c.count("raised")
            elif out == "generator":
                c.eq(list(got[1]), [1, 2], "the returned value")
            else:
                c.true(got == ("returned", obj if out == "value" else None), "the returned value", got=got)
            a = kw.get("a", args[0] if args else None)
            b = args[1] if len(args) > 1 else 2
            c.eq(calls, [(a, b, args[2:], kw.get("k"), {k: v for k, v in kw.items() if k == "z"})], "called once, with the given arguments")
            c.eq(len(box.out), 1, "the execution time is logged once, also on failure", out=box.out)
            c.true("victim" in box.out[0][1] and __name__ in box.out[0][1], "the log says what was timed", message=box.out[0][1])
            c.true(box.out[0][0].upper() in ("INFO", "USER_INFO", "WARNING"), "visible by default", level=box.out[0][0])
            num = float(box.out[0][1].rsplit(":", 1)[1].split()[0])
            c.true((0.02 if slow else 0) <= num <= spent + 1e-2, "the duration of the call", message=box.out[0][1], slow=slow, spent=spent)
            c.count("logged")
            c.count("timed")
            c.situation("timed", out, len(args))

        class Obj:
            @time_function
            def fact(self, n):
                return 1 if n <= 1 else n * self.fact(n - 1)

        n = c.int(1, 8)
        box.out.clear()
        c.eq(Obj().fact(n), math.factorial(n), "recursive methods")
        c.eq(len(box.out), n, "every call is logged")


# ------------------------------------------------------------------ states and units
@dataclass
class Theta:
    x: float
    y: float
    theta: float


@dataclass
class Both:
    x: float
    y: float
    theta: float
    psi: float


@dataclass
class Bare:
    x: float
    y: float


def extract(c):
    for k in W.KINDS:
        p = W.parameters(c, k)
        st = W.state(c, k, p, W.geometry(c, k))
        q = np.asarray(extract_pose_from_state(st))
        co, si = math.cos(st.psi), math.sin(st.psi)
        c.close(q, [[co, -si, st.x], [si, co, st.y], [0, 0, 1]], "pose of a state", atol=1e-9)
        v = extract_2d_position_from_state(st)
        c.eq(v.shape, (2,), "a position")
        c.close(v, [st.x, st.y], "position of a state", atol=0)
        if hasattr(st, "vx"):
            c.eq(extract_vel_from_state(st), st.vx, "velocity of a state")
        else:
            c.raises(lambda: extract_vel_from_state(st), "states without velocity are refused", exc=ZValueError)
        c.count("extracted", 3)
        c.situation("extract", k)
    th = c.ang()
    for s, want in ((Theta(1.0, 2.0, th), th), (Both(1.0, 2.0, th, th + 1), th)):
        q = np.asarray(extract_pose_from_state(s))
        c.close(math.atan2(q[1, 0], q[0, 0]), want, "orientation", atol=1e-9)
        c.close(q[:2, 2], [1, 2], "position", atol=0)
    for s in (Bare(1.0, 2.0), object(), None):
        c.raises(lambda: extract_pose_from_state(s), "objects without a pose are refused", exc=ZValueError)
        c.raises(lambda: extract_vel_from_state(s), "objects without a velocity are refused", exc=ZValueError)
    for _ in range(6):
        v = c.pick([0.0, c.u(-100, 100), 1, c.u(0, 1e-3), 1e6])
        c.close(ms2kmh(v), v * 3600 / 1000, "metres per second in kilometres per hour", rtol=1e-12)
        c.close(kmh2ms(v), v * 1000 / 3600, "kilometres per hour in metres per second", rtol=1e-12)
        c.close(kmh2ms(ms2kmh(v)), v, "back and forth", rtol=1e-12)
        c.close(ms2mph(v), v * 3600 / 1609.344, "metres per second in miles per hour", rtol=1e-5)
        c.count("converted", 4)


# ------------------------------------------------------------------ runs
def runs(c):
    kw = dict(crowded=c.index % 3 > 0, record=False)
    w = K.world(clone(c), **kw)
    other = K.world(clone(c), **kw)
    got = run_simulation(w.ctx)
    c.true(got is w.ctx, "the context that was run is returned")
    Simulator().run(other.ctx)
    c.eq(K.digest(got), K.digest(other.ctx), "as run by the simulator")
    want = set()
    for r in got.collision_reports:
        want |= set(r.players)
    who = who_collided(got)
    c.true(isinstance(who, frozenset) and who == want, "exactly those named in the collision reports", got=who, expected=want)
    # obstacles that hit the environment are not reported
    flagged = {p for p, m in got.models.items() if m.has_collided and not isinstance(m, DynObstacleModel)}
    c.true(flagged <= who, "models that have collided are among those who collided", models=flagged, who=who)
    c.count("collided" if who else "nobody collided")
    c.count("runs")
    c.situation("run", len(who), len(got.collision_reports) > 1)


FAMILIES = [("combos", combos, 300, 5000), ("alike", alike, 100, 1500), ("maps", maps, 150, 3000), ("timing", timing, 150, 2000), ("extract", extract, 60, 1000), ("runs", runs, 60, 1200)]
