"""M05: after a collision models stop obeying their agent, as documented."""
from dataclasses import replace
from decimal import Decimal as D

import numpy as np

from vlib import contact as T
from vlib import world as W
from dg_commons import PlayerName
from dg_commons.sim.collision import resolve_collision
from dg_commons.sim.models import MOTORCYCLE

ID = "M05"
RULE = ("distinct (model, how it collided, what was compared) combinations in which twin instances of a model received different commands "
        "before or after the collision and their evolutions were compared")
REQUIRE = {"deaf": 500, "obeying": 800, "others unaffected": 500, "slowing down": 150, "at rest": 80, "long after": 200}
MIN_SITUATIONS = 40
CARS = ("car", "car_dyn", "obstacle")  # these keep responding
STOP = ("pedestrian", "diff", "spacecraft", "rocket", "spaceship", "truck", "bicycle")
A, B = PlayerName("A"), PlayerName("B")


def different(c, kind, p):
    """Two commands that clearly differ"""
    a, b = W.command(c, kind, p), W.command(c, kind, p)
    lim = {n: (x, y) for n, x, y in zip(W.comps(a), W.vals(a), W.vals(b))}
    if all(abs(x - y) > 0.2 * (abs(x) + abs(y)) and abs(x - y) > 0.1 for x, y in lim.values()):
        return a, b
    return different(c, kind, p)


def differ(c, kind, x, y, msg):
    d = np.abs(W.vals(x) - W.vals(y)).max()
    c.true(d > 1e-4, f"{kind}: {msg}", a=x, b=y)
    c.count("obeying")


def equal(c, kind, x, y, msg, count):
    # the commands are part of the vector handed to the solver, so its step sizes may still depend on them
    c.close(W.vals(x), W.vals(y), f"{kind}: {msg}", atol=2e-3 if kind in W.DYN else 5e-4, rtol=1e-7)
    c.count(count)


def spec(c, kind):
    sp = W.spec(c, kind, inner=0.5)
    if kind in W.DYN:
        sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.5))
        sp.x0 = replace(sp.x0, vx=c.u(3, 15), vy=c.u(-0.2, 0.2), dpsi=c.u(-0.2, 0.2))
    if kind == "bicycle" and c.chance(0.5):
        sp.g = replace(sp.g, vehicle_type=MOTORCYCLE)
    if kind in STOP and c.chance(0.3):  # knocked down: at rest, entirely or in some components
        for n in W.RATES:
            if hasattr(sp.x0, n) and c.chance(0.8):
                sp.x0 = replace(sp.x0, **{n: c.pick([0.0, 0.0, 1e-4, -0.02])})
        c.count("at rest")
    if kind in ("obstacle",):
        sp.x0 = replace(sp.x0, dpsi=0.0, vx=0.3 * sp.x0.vx, vy=0.3 * sp.x0.vy)
    return sp


def case(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = spec(c, kind)
    u, v = different(c, kind, sp.p)
    dts = [D(c.pick(["0.02", "0.05", "0.1"])) for _ in range(c.int(1, 4))]
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, u=u, v=v, dts=dts)
    a, b, bystander = sp.build(), sp.build(), sp.build()
    how = c.pick(["flag", "resolution"])
    c.true(not a.has_collided and not bystander.has_collided, f"{kind}: a new model has not collided")
    # before the collision commands take effect, always
    p0, p1 = sp.build(), sp.build()
    p0.update(u, dts[0])
    p1.update(v, dts[0])
    differ(c, kind, p0.get_state(), p1.get_state(), "commands take effect before a collision")
    n_before = c.int(0, 2)
    for _ in range(n_before):
        a.update(u, dts[0])
        b.update(u, dts[0])
        bystander.update(u, dts[0])
    ref = sp.build(replace(bystander.get_state()))  # a twin of the bystander that never meets a collided instance
    a.has_collided = b.has_collided = True
    c.true(not bystander.has_collided and not ref.has_collided, f"{kind}: a collision of one instance marks others")
    for dt in dts:
        a.update(u, dt)
        b.update(v, dt)
        bystander.update(u, dt)
    for dt in dts:
        ref.update(u, dt)
    equal(c, kind, bystander.get_state(), ref.get_state(), "a bystander evolves as ever", "others unaffected")
    if kind in CARS:
        differ(c, kind, a.get_state(), b.get_state(), "keeps responding to its commands after a collision")
        c.situation(kind, "obeys after", n_before)
    else:
        equal(c, kind, a.get_state(), b.get_state(), "ignores its commands after a collision", "deaf")
        c.situation(kind, "deaf after", n_before)
        z = sp.build()
        for _ in range(n_before):
            z.update(u, dts[0])
        z.has_collided = True
        for dt in dts:
            z.update(W.zero_command(kind), dt)
        for n, x in W.as_dict(z.get_state()).items():
            c.close(getattr(a.get_state(), n), x, f"{kind}: evolves as if not commanded at all, component {n}", atol=(1e-3 if kind in W.DYN else 5e-4) * (1 + abs(x)),
                    rtol=1e-6)
    # friction after a collision
    if kind == "pedestrian":
        m = sp.build(replace(sp.x0))
        m.has_collided = True
        for dt in dts:
            x = replace(m.get_state())
            m.update(u, dt)
            y = m.get_state()
            for n in W.RATES:
                c.true(abs(getattr(y, n)) <= abs(getattr(x, n)) + 1e-9 and getattr(y, n) * getattr(x, n) >= -1e-9,
                       f"pedestrian: {n} dies out after a collision", before=x, after=y, dt=dt)
                c.le(abs(getattr(y, n)), (1 - 0.5 * float(dt)) * abs(getattr(x, n)) + 1e-6, f"pedestrian: friction wears {n} off after a collision", before=x, after=y, dt=dt)
            c.count("slowing down")
        c.situation(kind, "slowing down")
    if kind in W.DYN:
        h = D(c.pick(["0.001", "0.00001", "0.0001"]))
        x0 = sp.x0 if c.chance(0.7) else replace(sp.x0, vx=c.u(-1, 0.09), vy=c.u(-0.2, 0.2))
        fr, hit = sp.build(replace(x0)), sp.build(replace(x0))
        hit.has_collided = True
        for m in (fr, hit):
            m.update(W.zero_command(kind), h)
        for n in ("vx", "vy", "dpsi"):
            v = getattr(x0, n)
            lost = (getattr(fr.get_state(), n) - getattr(hit.get_state(), n)) / float(h)
            # what friction takes off the other components acts back within the step
            tol = 1e-3 + 100 * float(h) * (abs(x0.vy) + abs(x0.dpsi))
            c.true(lost * np.sign(v) >= 0.5 * abs(v) - tol and lost * np.sign(v) <= 6 * abs(v) + tol,
                   f"{kind}: friction wears {n} off after a collision", at=x0, lost=lost)
        c.count("slowing down")
        c.situation(kind, "slowing down", x0.vx < 0.1)
    if kind in ("rocket", "spaceship") and not n_before:
        c.close(a.get_state().m, sp.x0.m, f"{kind}: no thrust after a collision", atol=1e-9)


def long(c):
    """well after the collision, when everything has come to rest or has been pushed again"""
    kind = STOP[c.index % len(STOP)]
    sp = spec(c, kind)
    u, v = different(c, kind, sp.p)
    a, b = sp.build(), sp.build()
    a.has_collided = b.has_collided = True
    n = c.int(20, 60)
    push = c.int(5, n) if c.chance(0.5) else None
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, u=u, v=v, n=n, push=push)
    for i in range(n):
        a.update(u, D("0.1"))
        b.update(v, D("0.1"))
        if i == push:
            w = [np.array([c.u(-2, 2), c.u(-2, 2)]), c.u(-1, 1)]
            for m in (a, b):
                m.set_state(replace(a.get_state()))
                m.set_velocity(w[0].copy(), w[1], in_model_frame=True)
    c.true(a.has_collided and b.has_collided, f"{kind}: a collision is never forgotten")
    da, db = W.as_dict(a.get_state()), W.as_dict(b.get_state())
    for k in da:
        far = abs(da[k] - getattr(sp.x0, k))
        c.close(da[k], db[k], f"{kind}: ignores its commands long after a collision, component {k}", atol=1e-2 + 1e-3 * n * (1 + abs(far) / 10), u=u, v=v)
    c.count("long after")
    c.situation(kind, "long after", push is not None)


def resolved(c):
    """Commands matter until a real collision was resolved (models of a real context), and the partner is independent"""
    ka = W.KINDS[c.index % len(W.KINDS)]
    kb = c.pick(W.KINDS)
    a, b = T.pair(c, ka, kb, weights=0.4)
    ms = {A: a.build(), B: b.build()}
    others = [s.build() for s in (a, b)]
    c.note(a=(a.kind, a.x0, a.g), b=(b.kind, b.x0, b.g))
    from dg_commons.sim.collision_utils import CollisionException

    try:
        r = resolve_collision(A, B, T.context(ms))
    except CollisionException:
        return
    if r is None:
        c.true(not ms[A].has_collided and not ms[B].has_collided, "no collision, nobody is marked")
        c.count("not collided")
        return
    for m in others + [s.build() for s in (a, b)]:
        c.true(not m.has_collided, f"{m.model_type}: a collision of other instances marks this one")
    for p, sp in ((A, a), (B, b)):
        c.true(ms[p].has_collided, f"{sp.kind}: a model that took part in a collision is marked as collided")
        st = replace(ms[p].get_state())
        if sp.kind in W.DYN or sp.kind in CARS:
            continue
        u, v = different(c, sp.kind, sp.p)
        x, y = sp.build(replace(st)), sp.build(replace(st))
        x.has_collided = y.has_collided = ms[p].has_collided
        x.update(u, D("0.05"))
        y.update(v, D("0.05"))
        ms[p].update(v, D("0.05"))
        equal(c, sp.kind, x.get_state(), y.get_state(), "ignores its commands after a resolved collision", "deaf")
        equal(c, sp.kind, ms[p].get_state(), x.get_state(), "the collided model itself evolves like its twin", "deaf")
        fresh = sp.build(replace(st))
        fresh.update(u, D("0.05"))
        f2 = sp.build(replace(st))
        f2.update(v, D("0.05"))
        if sp.kind != "spacecraft" and sp.kind != "pedestrian":  # may be beyond its limits after the impact
            if sp.kind not in W.KIN:
                differ(c, sp.kind, fresh.get_state(), f2.get_state(), "a new model in the same state obeys")
        c.situation(sp.kind, "resolved", "first" if p == A else "second")


FAMILIES = [("twins", case, 900, 15000), ("long", long, 280, 4000), ("resolved", resolved, 360, 6000)]
