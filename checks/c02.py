"""C02: collision velocities are really applied and velocity access is consistent."""
import math
from copy import deepcopy
from dataclasses import replace

import numpy as np
from shapely.affinity import translate

from vlib import contact as T
from vlib import simkit as K
from vlib import world as W
from vlib.core import rot
from dg_commons import PlayerName
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.obstacles import StaticObstacle

ID = "C02"
RULE = ("distinct (model, frame set, frame read / collision partner) combinations in which a velocity was set, or changed by a "
        "collision, and read back from the model and from the report")
REQUIRE = {"velocities set and read": 700, "collided bodies": 500, "collided bodies in simulations": 80}
MIN_SITUATIONS = 60
A, B = PlayerName("A"), PlayerName("B")
FULL = W.FULLVEL


def vel(m, frame):
    v, w = m.get_velocity(in_model_frame=frame)
    return np.array([float(v[0]), float(v[1])]), float(w)


def rest(s):
    return {n: v for n, v in W.as_dict(s).items() if n not in W.RATES}


def frames(c, m, what):
    """Body and global readings are related by the heading, reading changes nothing"""
    s0 = m.get_state()
    (vb, wb), (vg, wg) = vel(m, True), vel(m, False)
    c.close(vg, rot(m.get_state().psi) @ vb, f"{what}: global velocity is the body velocity turned by the heading", atol=1e-9 * (1 + np.abs(vb).max()))
    c.close(wg, wb, f"{what}: rotational velocity is the same in both frames", atol=1e-12)
    c.true(m.get_state() == s0, f"{what}: reading the velocity changes the state")
    return vb, vg, wb


def setget(c):
    kinds = FULL + W.KIN
    kind = kinds[c.index % len(kinds)]
    sp = W.spec(c, kind)
    m = sp.build()
    if c.chance(0.3):
        m.has_collided = True
    for _ in range(6):
        frame = c.chance(0.5)
        s0 = m.get_state()
        frames(c, m, kind)
        mag = c.pick([1.0, 10.0, 0.0, 1e-3, 60.0])
        v, w = np.array([c.u(-1, 1), c.u(-1, 1)]) * mag, c.u(-3, 3) * c.pick([1, 0, 1, 10])
        if c.chance(0.15):
            v[c.int(0, 1)] = 0.0
        keep = v.copy()
        c.note(kind=kind, frame=frame, v=v, w=w, psi=s0.psi)
        m.set_velocity(v, w, in_model_frame=frame)
        c.eq(v, keep, "the velocity passed in is not modified")
        v += 1e3  # the model keeps no reference to it
        v = keep
        s1 = m.get_state()
        c.eq(rest(s1), rest(s0), f"{kind}: setting the velocity leaves pose and all other components untouched")
        vb, vg, wb = frames(c, m, kind)
        body = v if frame else rot(-s0.psi) @ v
        if kind in FULL:
            c.close(vb, body, f"{kind}: velocity read back in the body frame", atol=1e-9 * (1 + mag), set_in_body=frame)
            c.close(vg, rot(s0.psi) @ body, f"{kind}: velocity read back in the global frame", atol=1e-9 * (1 + mag), set_in_body=frame)
            c.close(wb, w, f"{kind}: rotational velocity read back", atol=1e-12)
            # a model in the same state has the same velocity: it is carried by the state alone
            m2 = sp.build(replace(s1))
            c.close(vel(m2, False)[0], vg, f"{kind}: the velocity is part of the state", atol=1e-12)
            c.close(vel(m2, False)[1], wb, f"{kind}: the rotational velocity is part of the state", atol=1e-12)
        else:
            c.close(vb[0], body[0], f"{kind}: longitudinal velocity read back", atol=1e-9 * (1 + mag), set_in_body=frame)
            c.close(s1.vx, body[0], f"{kind}: longitudinal velocity in the state", atol=1e-9 * (1 + mag))
        c.count("velocities set and read")
        c.situation(kind, "set body" if frame else "set global")


def applied(c, m, kind, s0, before, rep, who):
    v0, w0 = T.rv(rep.velocity)
    v1, w1 = T.rv(rep.velocity_after)
    c.close(v0, before[0], f"{kind}: reported velocity before impact", atol=1e-9)
    c.close(w0, before[1], f"{kind}: reported rotational velocity before impact", atol=1e-9)
    s1 = m.get_state()
    c.eq(rest(s1), rest(s0), f"{kind}: a collision changes velocities only")
    (va, wa) = vel(m, False)
    sc = 1 + np.abs(v1).max()
    if kind in FULL:
        c.close(va, v1, f"{kind}: velocity after the collision is the reported one", atol=1e-9 * sc, partner=who)
        c.close(wa, w1, f"{kind}: rotational velocity after the collision is the reported one", atol=1e-9 * (1 + abs(w1)), partner=who)
    elif kind in W.KIN:
        c.close(vel(m, True)[0][0], (rot(-s0.psi) @ v1)[0], f"{kind}: longitudinal velocity after the collision is the reported one",
                atol=1e-9 * sc, partner=who)
    c.true(m.has_collided, f"{kind}: marked as collided")
    c.count("collided bodies")
    c.situation(kind, "hits", who)


def collisions(c):
    ka, kb = W.KINDS[c.index % len(W.KINDS)], W.KINDS[(c.index // len(W.KINDS)) % len(W.KINDS)]
    a, b = T.pair(c, ka, kb)
    ms = {A: a.build(), B: b.build()}
    ctx = T.context(ms)
    s0 = {p: m.get_state() for p, m in ms.items()}
    before = {p: vel(m, False) for p, m in ms.items()}
    c.note(a=(ka, a.x0), b=(kb, b.x0))
    try:
        r = resolve_collision(A, B, ctx)
    except CollisionException:
        return
    if r is None:
        for p, m in ms.items():
            c.true(m.get_state() == s0[p], "an unresolved collision changes nothing")
            c.true(not m.has_collided, "bodies that separate did not collide")
        return
    for p, k, o in ((A, ka, kb), (B, kb, ka)):
        applied(c, ms[p], k, s0[p], before[p], r.players[p], o)


def environment(c):
    ka = W.KINDS[c.index % len(W.KINDS)]
    a = W.spec(c, ka)
    m = a.build()
    s = W.random_polygon(c, 0.5, 2.0)
    obs = StaticObstacle(translate(s, *T.place(c, m.get_footprint(), s)))
    s0, before = m.get_state(), vel(m, False)
    c.note(a=(ka, a.x0), obstacle=obs.shape.wkt)
    try:
        r = resolve_collision_with_environment(A, m, obs, T.context({A: m}, [obs]).time)
    except CollisionException:
        return
    if r is None:
        c.true(m.get_state() == s0 and not m.has_collided, "an unresolved collision changes nothing")
        return
    applied(c, m, ka, s0, before, r.players[A], "environment")


def simulations(c):
    """Chains of collisions within the steps of a simulation: each report continues from the previous one"""
    w = K.world(c, n=c.int(2, 6), kinds=FULL, spread=3.5, missions=0.2, obstacles=c.int(0, 2), max_steps=(6, 18))
    w.run()
    ups = {p: {e.t: e for e in w.tr.of("update", p)} for p in w.names}
    dt = w.ctx.param.dt
    per = {}
    for r in w.ctx.collision_reports:
        for p, rp in r.players.items():
            if rp is not None and p in w.names:
                per.setdefault((p, r.at_time), []).append(T.rv(rp.velocity) + T.rv(rp.velocity_after))
    for (p, t), rs in per.items():
        sp = w.init_specs[p]

        def glob(st):
            return vel(K.build_model(replace_x0(sp, st)), False)

        moving_obstacle = sp.kind == "obstacle"
        end = ups[p][t - dt].c[0]
        if t in ups[p]:
            start = ups[p][t].a[0]
            c.eq(rest(start), rest(end), f"{sp.kind}: no component but the velocities changes between two steps")
            if not moving_obstacle or not w.ctx.dg_scenario.static_obstacles:
                v, o = glob(start)
                c.close(v, rs[-1][2], f"{sp.kind}: the step after a collision starts with the reported velocity", atol=1e-8 * (1 + np.abs(v).max()))
                c.close(o, rs[-1][3], f"{sp.kind}: the step after a collision starts with the reported rotational velocity", atol=1e-8 * (1 + abs(o)))
        if not moving_obstacle or not w.ctx.dg_scenario.static_obstacles:
            v, o = glob(end)
            c.close(v, rs[0][0], f"{sp.kind}: the first report of a step starts from the velocity reached", atol=1e-8 * (1 + np.abs(v).max()))
            c.close(o, rs[0][1], f"{sp.kind}: the first report of a step starts from the rotational velocity reached", atol=1e-8 * (1 + abs(o)))
            for x, y in zip(rs, rs[1:]):
                c.close(np.append(y[0], y[1]), np.append(x[2], x[3]), f"{sp.kind}: reports within a step follow each other", atol=1e-8)
        c.count("collided bodies in simulations")
        c.situation(sp.kind, "in simulation", "several" if len(rs) > 1 else "single")


def replace_x0(sp, st):
    st = replace(st)
    return W.Spec(sp.kind, st, sp.g, sp.p, sp.shape)


FAMILIES = [("setget", setget, 240, 6000), ("collisions", collisions, 1152, 20000), ("environment", environment, 240, 6000),
            ("simulations", simulations, 60, 1500)]
