"""K03: the speed behaviour yields consistently and safely."""
import math
from dataclasses import replace

import numpy as np

from vlib import world as W
from vlib.core import rot
from dg_commons.controllers.speed import SpeedBehavior, SpeedBehaviorParam
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.simulator_structures import PlayerObservations

ID = "K03"
RULE = ("distinct (rule or relation, kind of other vehicle, within or beyond the distance of the rule, default or custom parameters, outcome) classes in which "
        "the speed reference and the emergency flag were compared with the rule")
REQUIRE = {"references": 6000, "metamorphic": 1500, "yielded": 200, "emergencies": 300, "held nominal": 500, "followed": 200, "added players": 800, "stopped": 400, "similar names": 500, "from afar": 30}
MIN_SITUATIONS = 60
OTHERS = W.KIN + ("car_dyn", "pedestrian", "obstacle")


def params(c):
    if c.chance(0.4):
        return SpeedBehaviorParam()
    return SpeedBehaviorParam(nominal_speed=c.u(2, 30), yield_distance=c.u(2, 20), minimum_yield_vel=c.u(0.2, 4), safety_time_braking=c.u(0.5, 3))


def state(c, kind, x, y, th, v):
    if kind in W.KIN:
        return VehicleState(x=x, y=y, psi=th, vx=v, delta=c.u(-0.3, 0.3))
    s = W.spec(c, kind, at=(x, y, th), speed=0).build().get_state()
    return replace(s, vx=v)


def entry(s):
    return PlayerObservations(state=s, occupancy=None)


def ask(c, p, agents, me="Ego", behaviour=None):
    b = behaviour or SpeedBehavior(my_name=me)
    b.params = replace(p)
    b.update_observations(agents)
    r, e = b.get_speed_ref(0.0)
    c.true(0 <= r <= p.nominal_speed, "a speed reference lies between zero and the nominal speed", reference=r, nominal=p.nominal_speed)
    if e:
        c.eq(r, 0, "an emergency means reference zero")
        c.count("stopped")
    c.eq(b.params, p, "the parameters are left as they are")
    c.count("references")
    return float(r), bool(e)


def same(c, a, b, msg, **kw):
    c.close(a[0], b[0], msg + " (reference)", atol=1e-9, **kw)
    c.eq(a[1], b[1], msg + " (emergency)", **kw)
    c.count("metamorphic")


def crowd(c, n, me):
    """others around a vehicle, many of them in interesting places"""
    out = {}
    for i in range(n):
        kind = c.pick(OTHERS)
        how = c.pick(["anywhere", "near", "ahead", "crossing"])
        if how == "anywhere":
            r, b, t = c.u(0.5, 60), c.ang(), c.ang()
            x, y = r * math.cos(b), r * math.sin(b)
        elif how == "near":
            x, y, t = c.u(-10, 10), c.u(-10, 10), c.ang()
        elif how == "ahead":
            x, y, t = c.u(-5, 25 if me.vx < 15 else 200), c.u(-2, 2), c.pick([0, math.pi]) + c.u(-0.7, 0.7)
        else:
            x, y, t = c.u(-3, 8), c.u(-8, 8), c.sign() * math.pi / 2 + c.u(-0.8, 0.8)
        p = rot(me.psi) @ [x, y] + [me.x, me.y]
        out[f"O{i}"] = entry(state(c, kind, p[0], p[1], me.psi + t, c.pick([0.0, c.u(0, 3), c.u(0, 15), c.u(-2, 0)])))
    return out


def shuffled(c, d):
    k = list(d)
    c.rng.shuffle(k)
    return {i: d[i] for i in k}


def moved(s, t, d):
    x, y = rot(t) @ [s.x, s.y] + d
    return replace(s, x=float(x), y=float(y), psi=s.psi + t)


def relations(c):
    p = params(c)
    me = VehicleState(x=c.u(-50, 50), y=c.u(-50, 50), psi=c.ang(2), vx=c.pick([0.0, c.u(0, 15), c.u(-1, 0), c.u(15, 50)]), delta=0.0)
    n = c.int(1, 5)
    others = crowd(c, n, me)
    agents = shuffled(c, {"Ego": entry(me), **others})
    b = SpeedBehavior(my_name="Ego")
    a = ask(c, p, agents, behaviour=b)
    kw = dict(me=me, others={k: v.state for k, v in others.items()}, params=p)
    same(c, ask(c, p, agents, behaviour=b), a, "asking again gives the same", **kw)
    same(c, ask(c, p, shuffled(c, agents)), a, "the order of players does not matter", **kw)
    names = {k: c.pick(["Ego", "zz", "A"]) + str(i) for i, k in enumerate(agents)}
    if c.chance(0.4):  # names that begin or end alike, or contain one another
        me_ = c.pick(["P1", "Ego", "a", "1"])
        like = [me_ + "0", me_ + "1", me_ + "_" + me_, "x" + me_, me_.lower() + "_", me_.swapcase() + "-", me_[:-1] + "Z", me_ + " ", me_ + "00"]
        names = dict(zip(agents, c.rng.sample(like, len(agents))))
        names["Ego"] = me_
        c.count("similar names")
    same(c, ask(c, p, {names[k]: v for k, v in agents.items()}, me=names["Ego"]), a, "the names of players do not matter", **kw)
    t, d = c.ang(), np.array([c.u(-200, 200), c.u(-200, 200)])
    same(c, ask(c, p, {k: entry(moved(v.state, t, d)) for k, v in agents.items()}), a, "the world frame does not matter", **kw)
    # others one by one
    single = {k: ask(c, p, {"Ego": entry(me), k: v}) for k, v in others.items()}
    stop = any(v[0] == 0 for v in single.values())
    c.close(a[0], min(v[0] for v in single.values()), "the most cautious reference asked for by any player applies", atol=1e-9, single=single, **kw)
    c.eq(a[1], any(v[1] for v in single.values()), "an emergency is one with everybody or with anybody", single=single, **kw)
    # one more
    more = crowd(c, 1, me)
    x = ask(c, p, shuffled(c, {**agents, "one more": more["O0"]}))
    c.le(x[0], a[0] + 1e-12, "another player never increases the reference", **kw)
    c.true(x[1] or not a[1], "another player never ends an emergency", **kw)
    c.count("added players")
    alone = ask(c, p, {"Ego": entry(me)})
    c.eq(alone, (p.nominal_speed, False), "alone, the reference is the nominal speed")
    # own steering or lights do not matter, only pose and speed
    same(c, ask(c, p, {**agents, "Ego": entry(replace(me, delta=c.u(-0.3, 0.3)))}), a, "one's own steering does not matter", **kw)
    c.situation("relations", n, "stop" if a[0] == 0 else "slow" if a[0] < p.nominal_speed else "nominal", "emergency" if a[1] else "no emergency", "default" if p == SpeedBehaviorParam() else "custom")


def place(c, me, x, y, th, kind, v):
    p = rot(me.psi) @ [x, y] + [me.x, me.y]
    return {"Ego": entry(me), "other": entry(state(c, kind, float(p[0]), float(p[1]), me.psi + th, v))}


def rules(c):
    p = params(c)
    me = VehicleState(x=c.u(-50, 50), y=c.u(-50, 50), psi=c.ang(2), vx=c.pick([0.0, c.u(0, 15), c.u(0, 15), c.u(15, 60), c.u(15, 60)]), delta=0.0)
    kind = c.pick(OTHERS)
    rule = c.pick(["right", "left", "oncoming", "ahead", "behind", "beside"])
    within = c.chance(0.6)
    k = c.u(0.3, 0.999) if within else c.u(1.001, 3)
    tol = 0.7
    info = (rule, kind, "within" if within else "beyond", "default" if p == SpeedBehaviorParam() else "custom")
    if rule in ("right", "left"):
        s = 1 if rule == "right" else -1
        slow = c.chance(0.25)
        v = p.minimum_yield_vel * (c.u(0, 0.99) if slow else c.u(1.01, 8))
        r = p.yield_distance * k
        b = -s * c.u(0.1, math.pi / 2 - 0.1)  # ahead, on that side
        ag = place(c, me, r * math.cos(b), r * math.sin(b), s * (math.pi / 2 + c.u(-tol, tol)), kind, v)
        got = ask(c, p, ag)
        kw = dict(me=me, other=ag["other"].state, distance=r, params=p)
        if within and not slow:
            c.eq(got, (0.0, rule == "left"), f"a vehicle crossing from the {rule} within yield distance", **kw)
            c.count("yielded" if rule == "right" else "emergencies")
        else:
            c.eq(got, (p.nominal_speed, False), "a vehicle crossing beyond yield distance or hardly moving", **kw)
            c.count("held nominal")
        info += ("slow" if slow else "fast",)
    elif rule == "oncoming":
        v = c.u(0.5, 15)
        brake = p.safety_time_braking * (me.vx + v)
        r = brake * k
        y = c.u(-1.15, 1.15)
        if r < abs(y) + 0.1:
            return
        side = c.chance(0.2)
        if side:
            y = c.sign() * c.u(1.25, 4)
        x = math.sqrt(max(r * r - y * y, 0.01))
        ag = place(c, me, x, y, math.pi + c.u(-tol, tol), kind, v)
        got = ask(c, p, ag)
        kw = dict(me=me, other=ag["other"].state, distance=math.hypot(x, y), braking_distance=brake, params=p)
        if within and not side:
            c.eq(got, (0.0, True), "an oncoming vehicle within braking distance", **kw)
            c.count("emergencies")
            c.count("from afar", r > 60)
        else:
            c.eq(got, (p.nominal_speed, False), "an oncoming vehicle beyond braking distance or passing on the side", **kw)
            c.count("held nominal")
        info += ("side" if side else "lane",)
    elif rule == "ahead":
        v = c.pick([0.0, c.u(0, 20), c.u(0, 20), -c.u(0, 5)])  # standing, driving on or backing up
        keep = p.safety_time_braking * me.vx  # at least this
        y = c.u(-1.15, 1.15)
        r = keep * k if within else (keep + max(me.vx - v, 0)) * k
        if r < abs(y) + 0.6:
            return
        x = math.sqrt(r * r - y * y)
        ag = place(c, me, x, y, c.u(-0.5, 0.5), kind, v)
        got = ask(c, p, ag)
        kw = dict(me=me, other=ag["other"].state, distance=r, params=p)
        c.true(not got[1], "following is no emergency", **kw)
        if within:
            c.le(got[0], max(v, 0) + 1e-9, "closing up on a vehicle ahead: not faster than that vehicle", **kw)
            if v < me.vx:
                c.le(got[0], max(v - (me.vx - v), 0) + 1e-9, "closing up on a slower vehicle ahead: slower than it", **kw)
            c.count("followed")
            c.count("from afar", r > 60)
        else:
            c.eq(got[0], p.nominal_speed, "a vehicle ahead beyond the safety distance", **kw)
            c.count("held nominal")
        info += ("slower" if v < me.vx else "faster",)
    elif rule == "behind":
        ag = place(c, me, -c.u(0.1, 10), c.u(-3, 3), c.u(-0.5, 0.5) + c.pick([0, math.pi]), kind, c.u(0, 15))
        got = ask(c, p, ag)
        c.eq(got, (p.nominal_speed, False), "a vehicle behind, driving along or away", me=me, other=ag["other"].state)
        c.count("held nominal")
    else:
        ag = place(c, me, c.u(-10, 20), c.sign() * c.u(1.25, 6), c.u(-0.5, 0.5) + c.pick([0, math.pi]), kind, c.u(0, 15))
        got = ask(c, p, ag)
        c.eq(got, (p.nominal_speed, False), "a vehicle in a neighbouring lane", me=me, other=ag["other"].state)
        c.count("held nominal")
    c.situation(*info)


FAMILIES = [("relations", relations, 2500, 40000), ("rules", rules, 6000, 100000)]
