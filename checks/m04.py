"""M04: footprints are outlines placed at the pose."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import affine_transform
from shapely.geometry import Point, Polygon, box

from vlib import world as W
from vlib.core import rot
from dg_commons.sim.models import BICYCLE, CAR, MOTORCYCLE, TRUCK
from dg_commons.sim.models.vehicle_structures import VehicleGeometry

ID = "M04"
RULE = ("distinct (model, way the state was reached, heading quadrant) classes for which the real footprint and pose were compared with an "
        "outline computed independently from the geometry's dimensions")
REQUIRE = {"footprints": 2000, "outlines": 800, "wheels": 150, "same pose": 1500, "odd proportions": 100, "crept": 800}
MIN_SITUATIONS = 100
TYRE = {CAR: (0.1, 0.3), TRUCK: (0.2, 0.4), BICYCLE: (0.05, 0.3), MOTORCYCLE: (0.05, 0.3)}


def vehicle_outline(g):
    hw, r = TYRE[g.vehicle_type]
    front = g.lf / 2 if g.vehicle_type in (CAR, TRUCK) else r
    return box(-g.lr - 2 * r, -g.w_half - hw, g.lf + front, g.w_half + hw)


def outline(c, sp):
    """Body frame outline from the declared dimensions"""
    g, k = sp.g, sp.kind
    if k in W.KIN + W.DYN:
        return vehicle_outline(g)
    if k == "diff":
        return Point(0, 0).buffer(g.radius, quad_segs=64)
    if k == "pedestrian":
        return affine_transform(Point(0, 0).buffer(0.5, quad_segs=64), [1, 0, 0, 1.5, 0, 0])
    if k == "spacecraft":
        e = affine_transform(Point(0, 0).buffer(1.0, quad_segs=64), [g.lf, 0, 0, g.w_half, 0, 0])
        return e.union(box(-g.lr, -g.w_half, 1e-3, g.w_half))
    if k == "rocket":
        f = g.l_f + g.l_m
        return Polygon([(-g.l_r, g.w_half), (f, g.w_half), (f + g.l_c, 0), (f, -g.w_half), (-g.l_r, -g.w_half)])
    if k == "spaceship":
        return Polygon([(-g.l_r, g.w_half), (g.l_f, g.w_half), (g.l_f + g.l_c, 0), (g.l_f, -g.w_half), (-g.l_r, -g.w_half)])
    return sp.shape


ROUND = ("diff", "pedestrian", "spacecraft")


def at(shape, st):
    c, s = math.cos(st.psi), math.sin(st.psi)
    return affine_transform(shape, [c, -s, s, c, st.x, st.y])


def check(c, sp, m, how):
    st, k = m.get_state(), sp.kind
    f, o = m.get_footprint(), outline(c, sp)
    ref = at(o, st)
    tol = (0.006 if k in ROUND else 1e-9) * o.area + 1e-9
    big = max(1.0, abs(st.x), abs(st.y))
    c.true(f.is_valid and not f.is_empty, f"{k}: footprint is a proper shape")
    c.le(f.symmetric_difference(ref).area, tol + 1e-12 * big * o.length, f"{k}: the footprint is the outline rotated by the heading and moved to the position",
         state=st, how=how, footprint=f.wkt, expected=ref.wkt)
    c.close(f.length, o.length, f"{k}: perimeter", rtol=3e-3 if k in ROUND else 1e-9)
    if k != "obstacle":
        c.true(f.contains(Point(st.x, st.y)), f"{k}: the reference point lies within the footprint", state=st, footprint=f.wkt)
    T = np.asarray(m.get_pose(), dtype=float)
    exp = np.eye(3)
    exp[:2, :2] = rot(st.psi)
    exp[:2, 2] = st.x, st.y
    c.close(T, exp, f"{k}: pose is position and heading of the state", atol=1e-9, rtol=1e-12)
    c.count("footprints")
    c.situation(k, how, int((st.psi % (2 * math.pi)) // (math.pi / 2)))


LENGTHS = {"spacecraft": ["w_half", "lf", "lr"], "rocket": ["w_half", "l_c", "l_f", "l_m", "l_r"], "spaceship": ["w_half", "l_c", "l_f", "l_r"], "diff": ["radius"]}
for _k in W.KIN + W.DYN:
    LENGTHS[_k] = ["w_half", "lf", "lr"]


def extreme(c, sp):
    """odd proportions: some dimensions are very small or very large"""
    for n in c.rng.sample(LENGTHS[sp.kind], c.int(1, min(2, len(LENGTHS[sp.kind])))):
        v = 10 ** (c.u(-3, -1) if c.chance(0.7) else c.u(0.7, 1.7))
        if sp.kind == "spacecraft" and n != "w_half":  # longer behind than ahead
            lf = v if n == "lf" else sp.g.lf
            sp.g = replace(sp.g, lf=lf, lr=max(sp.g.lr, lf * 1.2) if n == "lf" else lf + v)
        elif sp.kind == "rocket" and n != "w_half":
            sp.g = replace(sp.g, **{n: v, "l": sp.g.l - getattr(sp.g, n) + v})
        else:
            sp.g = replace(sp.g, **{n: v})
    c.count("odd proportions")


def case(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind)
    if kind in LENGTHS and c.chance(0.25):
        extreme(c, sp)
    if c.chance(0.2):
        sp.x0 = replace(sp.x0, psi=c.int(-8, 8) * math.pi / 2)
    if c.chance(0.15):
        sp.x0 = replace(sp.x0, x=c.u(-1e4, 1e4), y=c.u(-1e4, 1e4))
    c.note(kind=kind, x0=sp.x0, g=sp.g)
    m = sp.build()
    check(c, sp, m, "initial")
    c0 = m.get_footprint()
    if kind in W.KIN + W.DYN and sp.g.vehicle_type in TYRE:
        g = sp.g
        hw, r = TYRE[g.vehicle_type]
        c.close(g.width, 2 * g.w_half, "declared width")
        b = vehicle_outline(g).bounds
        c.close(g.length, b[2] - b[0], "declared length is that of the outline")
        c.close(g.wheelbase, g.lf + g.lr, "wheelbase")
        c.close(np.array(Polygon(g.outline).bounds), np.array(b), "declared outline")
    elif kind in ("diff", "rocket", "spaceship", "spacecraft"):
        b = m.model_geometry.outline_as_polygon.bounds
        c.close(b[3] - b[1], 2 * sp.g.radius if kind == "diff" else 2 * sp.g.w_half, f"{kind}: outline has the declared width", rtol=1e-3)
        if kind == "diff":
            c.close(b[2] - b[0], 2 * sp.g.radius, f"{kind}: outline has the declared length", rtol=1e-3)
            c.close(sp.g.width, 2 * sp.g.radius, "diff: width")
            c.close(sp.g.length, 2 * sp.g.radius, "diff: length")
        elif kind == "spacecraft":
            c.close(b[2] - b[0], sp.g.lf + sp.g.lr, f"{kind}: outline has the declared length", rtol=1e-3)
        else:
            c.close(b[2] - b[0], sp.g.l, f"{kind}: outline has the declared length", rtol=1e-3)
            c.close(sp.g.width, 2 * sp.g.w_half, f"{kind}: width")
    c.count("outlines")
    # the state changes in every possible way and the footprint follows
    how = c.pick(["update", "set_state", "set_velocity", "teleport", "collided"])
    if how == "update":
        for _ in range(c.int(1, 4)):
            m.update(W.command(c, kind, sp.p), D(c.pick(["0.05", "0.1"])))
    elif how == "collided":
        m.has_collided = True
        m.update(W.command(c, kind, sp.p), D("0.1"))
    elif how == "set_state":
        s2 = W.state(c, kind, sp.p)
        m.set_state(s2)
        c.true(m.get_state() == s2, f"{kind}: the state set is the state", got=m.get_state(), expected=s2)
    elif how == "teleport":
        st = m.get_state()
        st.x, st.y, st.psi = c.u(-50, 50), c.u(-50, 50), c.ang(2)
    else:
        m.set_velocity(np.array([c.u(-3, 3), c.u(-3, 3)]), c.u(-1, 1), c.chance(0.5))
        c.le(m.get_footprint().symmetric_difference(c0).area, 1e-9 * c0.area + 1e-9, f"{kind}: setting a velocity does not move the body")
    check(c, sp, m, how)
    c.close(m.get_footprint().area, c0.area, f"{kind}: the area never changes", rtol=1e-6, atol=1e-7)


def twins(c):
    """bodies of all shapes asked one after the other at one and the same pose"""
    pose = dict(x=c.u(-50, 50), y=c.u(-50, 50), psi=c.pick([0.0, c.ang(2)]))
    ms = []
    for i in range(c.int(4, 9)):
        k = ms[-1][0].kind if ms and c.chance(0.5) else c.pick(W.KINDS)
        sp = W.spec(c, k)
        if ms and c.chance(0.4):  # in the same state altogether
            same = [s for s, _ in ms if s.kind == k]
            if same:
                sp.x0 = replace(same[-1].x0)
        sp.x0 = replace(sp.x0, **pose)
        ms.append((sp, sp.build()))
    c.note(kinds=[s.kind for s, _ in ms], pose=pose)
    for _ in range(2):
        for sp, m in ms:
            check(c, sp, m, "same pose")
            c.count("same pose")
        ms = c.rng.sample(ms, len(ms))
    # turning or moving alone, and back again
    sp, m = c.pick(ms)
    x = m.get_state()
    for n, d in c.pick([[("psi", 0.4)], [("x", 1.5), ("y", -0.5)], [("psi", math.pi)], [("y", 1e-3)]]):
        x = replace(x, **{n: getattr(x, n) + d})
    for y in (x, replace(sp.x0)):
        m.set_state(replace(y))
        check(c, sp, m, "there and back")


def creeping(c):
    """minute movements, also far away from the origin: the footprint follows each of them"""
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind)
    z = 10 ** c.u(0, 4)
    sp.x0 = replace(sp.x0, x=c.u(-z, z), y=c.u(-z, z), psi=c.pick([0.0, c.ang(2)]))
    m = sp.build()
    c.note(kind=kind, x0=sp.x0, g=sp.g)

    def body():
        st, f = m.get_state(), m.get_footprint()
        return st, (np.array(f.exterior.coords) - [st.x, st.y]) @ rot(st.psi)

    st, b0 = body()
    for _ in range(6):
        n, d = c.pick(["x", "y", "psi"]), c.sign() * 10 ** c.u(-6, -2)
        by = c.pick(["set_state", "in place"])
        if by == "set_state":
            m.set_state(replace(st, **{n: getattr(st, n) + d}))
        else:
            setattr(m._state, n, getattr(m._state, n) + d)
        st, b = body()
        c.eq(b.shape, b0.shape, f"{kind}: the outline keeps its corners")
        c.close(b, b0, f"{kind}: the footprint follows the smallest movement", atol=1e-9 + 4e-15 * z * (1 + abs(st.psi)), moved=(n, d), state=st)
        c.count("crept")
    c.situation("creeping", kind, int(math.log10(z)))


def wheels(c):
    """Wheels and lights stay at their places on the body for drawing"""
    base = c.pick(["car", "truck", "bicycle", "motorcycle"])
    if base == "motorcycle":
        g = replace(W.geometry(c, "bicycle"), vehicle_type=MOTORCYCLE)
    else:
        g = W.geometry(c, base)
    hw, r = TYRE[g.vehicle_type]
    delta = c.u(-1, 1)
    c.note(g=g, delta=delta)
    f = Polygon(g.outline)
    c.le(f.symmetric_difference(vehicle_outline(g)).area, 1e-9, "outline")
    pos = np.asarray(g.wheels_position)
    two = g.vehicle_type in (BICYCLE, MOTORCYCLE)
    c.eq(g.n_wheels, 2 if two else 4, "number of wheels")
    exp = {(g.lf, 0.0), (-g.lr, 0.0)} if two else {(g.lf, g.w_half), (g.lf, -g.w_half), (-g.lr, g.w_half), (-g.lr, -g.w_half)}
    c.eq({(float(a), float(b)) for a, b in pos[:2].T}, exp, "wheels on their axles")
    outs = g.get_rotated_wheels_outlines(delta)
    c.eq(len(outs), g.n_wheels, "one outline per wheel")
    for i, o in enumerate(outs):
        front = i < g.n_wheels / 2
        ref = rot(delta if front else 0.0) @ np.array([[r, -r, -r, r], [-hw, -hw, hw, hw]]) + pos[:2, i : i + 1]
        got = Polygon(np.asarray(o)[:2].T)
        c.le(got.symmetric_difference(Polygon(ref.T)).area, 1e-9, f"wheel {i} is where it belongs, steered only at the front", delta=delta)
    b = f.bounds
    for n, (x, y) in g.lights_position.items():
        c.close(x, b[2] if "front" in n else b[0], f"light {n} longitudinally")
        c.true((y > 0) == ("left" in n) and abs(y) <= g.w_half + hw, f"light {n} laterally", y=y)
    c.count("wheels")
    c.situation("wheels", base)


FAMILIES = [("footprints", case, 1200, 20000), ("twins", twins, 150, 2500), ("creeping", creeping, 240, 4000), ("wheels", wheels, 200, 2000)]
