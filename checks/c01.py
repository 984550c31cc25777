"""C01: collision impulses obey rigid-body physics."""
import math
from dataclasses import replace

import numpy as np
from shapely.affinity import rotate, translate
from shapely.geometry import LinearRing, LineString, Polygon

from vlib import contact as T
from vlib import world as W
from vlib.core import clone, cross2, rot, se2
from dg_commons import PlayerName
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle

ID = "C01"
RULE = ("distinct (kinds of the two bodies, kind of contact, who is heavier) classes of resolved collisions in which the "
        "impulse laws were checked on the report and on the geometry recorded before")
REQUIRE = {"resolved pairs": 600, "resolved with environment": 150, "swapped": 60, "moved frames": 60, "separating": 150}
MIN_SITUATIONS = 80
A, B = PlayerName("A"), PlayerName("B")
FULL = set(W.FULLVEL)


def laws(c, n, P, parts, e, static):
    """parts: list of (mass, inertia, centre, (v, w) before, (v, w) after, energy_delta); the first one is A"""
    c.close(np.linalg.norm(n), 1.0, "the contact normal has unit length", atol=1e-9)
    vs = max([1e-3] + [np.linalg.norm(v0) + abs(w0) for _, _, _, (v0, w0), _, _ in parts])
    J = []
    for m, i, x, (v0, w0), (v1, w1), de in parts:
        j = m * (v1 - v0)
        J.append(j)
        tol = 1e-7 * m * vs
        c.close(cross2(j, n), 0.0, "the impulse acts along the contact normal (no tangential impulse)", atol=tol)
        r = P - x
        c.close(i * (w1 - w0), cross2(r, j), "the impulse acts at the impact point", atol=1e-7 * (i + m * (1 + np.linalg.norm(r))) * vs)
        c.close(de, 0.5 * m * (v1 @ v1 - v0 @ v0), "reported energy change is the change of translational kinetic energy",
                atol=1e-7 * m * vs**2)
        # along the lever arm nothing changes, transversally the tangential velocity of the body stays
    if not static:
        mm = max(p[0] for p in parts)
        c.close(J[0] + J[1], [0, 0], "total linear momentum is conserved", atol=1e-7 * mm * vs)
        L0 = sum(m * cross2(x - P, v0) + i * w0 for m, i, x, (v0, w0), _, _ in parts)
        L1 = sum(m * cross2(x - P, v1) + i * w1 for m, i, x, _, (v1, w1), _ in parts)
        sc = sum((m * (1 + np.linalg.norm(x - P)) + i) for m, i, x, _, _, _ in parts) * vs
        c.close(L1, L0, "total angular momentum is conserved", atol=1e-7 * sc)
    rel0 = sum(s * T.at_point(*p[3], P - p[2]) for s, p in zip((1, -1), parts)) @ n
    rel1 = sum(s * T.at_point(*p[4], P - p[2]) for s, p in zip((1, -1), parts)) @ n
    c.true(rel0 >= -1e-9 * vs, "collisions of separating bodies are not resolved", rel=rel0)
    c.close(rel1, -e * rel0, "normal relative velocity is reversed and scaled by the smaller restitution coefficient",
            atol=1e-6 * vs, rtol=1e-6, e=e)
    c.true(J[0] @ n <= 1e-7 * parts[0][0] * vs, "A is pushed back by the impulse", J=J[0], n=n)
    K0 = sum(sum(T.kinetic(m, i, *b)) for m, i, _, b, _, _ in parts)
    K1 = sum(sum(T.kinetic(m, i, *a)) for m, i, _, _, a, _ in parts)
    c.le(K1, K0 * (1 + 1e-7) + 1e-9, "total kinetic energy does not increase", e=e)
    if not static and abs(rel0) > 1e-3:
        # energy balance: with e the loss is (1-e^2)/2 * effective mass * rel0^2
        inv = sum(1 / m + cross2(P - x, n) ** 2 / i for m, i, x, _, _, _ in parts)
        c.close(K0 - K1, (1 - e * e) / 2 * rel0**2 / inv, "energy loss of the collision", atol=1e-6 * (K0 + 1), rtol=1e-6)
    return rel0


def record(ctx, r, names):
    parts = []
    for p in names:
        rp, m = r.players[p], ctx.models[p]
        parts.append((*T.inertia(m), T.centre(m), T.rv(rp.velocity), T.rv(rp.velocity_after), float(rp.energy_delta)))
    return np.array(r.impact_point.coords[0]), np.array(r.impact_normal, float), parts


def resolve(a, b, order=(A, B)):
    ms = {A: a.build(), B: b.build()}
    ctx = T.context({p: ms[p] for p in order})
    before = {p: T.velocity(ms[p]) for p in ms}
    try:
        r = resolve_collision(order[0], order[1], ctx)
    except CollisionException:
        return ctx, before, "unresolved"
    return ctx, before, r


def pairs(c):
    kinds = W.KINDS
    ka, kb = kinds[c.index % len(kinds)], kinds[(c.index // len(kinds)) % len(kinds)]
    a, b = T.pair(c, ka, kb)
    c.note(a=(ka, a.x0, a.g), b=(kb, b.x0, b.g))
    ctx, before, r = resolve(a, b)
    if r == "unresolved":
        c.count("unresolved")
        return
    if r is None:
        c.count("separating")
        return
    c.eq(set(r.players), {A, B}, "parties named in the report")
    P, n, parts = record(ctx, r, (A, B))
    for p, part in zip((A, B), parts):
        c.close(part[3][0], before[p][0], "reported velocity before impact", atol=1e-9)
        c.close(part[3][1], before[p][1], "reported rotational velocity before impact", atol=1e-9)
    e = min(a.g.e, b.g.e)
    rel0 = laws(c, n, P, parts, e, False)
    c.count("resolved pairs")
    fa, fb = r.players[A].footprint, r.players[B].footprint
    X = T.crossings(fa, fb)
    two = X is not None and len(X) == 2
    c.situation(ka, kb, "two points" if two else "other", "heavier" if parts[0][0] > parts[1][0] else "lighter")
    if not two or rel0 < 1e-6:
        return
    # conditioning: crossing points well apart, the centres well on opposite sides of the contact line
    d = np.linalg.norm(X[1] - X[0])
    nn = np.array([-(X[1] - X[0])[1], (X[1] - X[0])[0]]) / max(d, 1e-12)
    ca, cb = np.array(fa.centroid.coords[0]), np.array(fb.centroid.coords[0])
    sa, sb = (ca - X[0]) @ nn, (cb - X[0]) @ nn
    if d < 1e-3 or sa * sb > 0 or min(abs(sa), abs(sb)) < 1e-3:
        return
    if parts[0][1:] and c.chance(0.9):
        ctx2, _, r2 = resolve(a, b, (B, A))
        c.true(r2 not in (None, "unresolved"), "naming the other party first does not change whether a collision is resolved")
        P2, n2, parts2 = record(ctx2, r2, (A, B))
        c.close(P2, P, "the impact point does not depend on which party is named first", atol=1e-6)
        vs = 1 + max(np.linalg.norm(p[3][0]) + abs(p[3][1]) for p in parts)
        for q, q2 in zip(parts, parts2):
            c.close(q2[4][0], q[4][0], "velocities after do not depend on which party is named first", atol=1e-5 * vs)
            c.close(q2[4][1], q[4][1], "rotational velocities after do not depend on which party is named first", atol=1e-5 * vs)
        c.count("swapped")
    TT = (c.u(-30, 30), c.u(-30, 30), c.ang())
    ctx3, _, r3 = resolve(T.moved(a, TT), T.moved(b, TT))
    c.true(r3 not in (None, "unresolved"), "moving the world frame does not change whether a collision is resolved")
    P3, n3, parts3 = record(ctx3, r3, (A, B))
    R = rot(TT[2])
    c.close(P3, R @ P + TT[:2], "the impact point moves with the world frame", atol=1e-6)
    vs = 1 + max(np.linalg.norm(p[3][0]) + abs(p[3][1]) for p in parts)
    for q, q3 in zip(parts, parts3):
        c.close(q3[4][0], R @ q[4][0], "velocities after rotate with the world frame", atol=1e-5 * vs)
        c.close(q3[4][1], q[4][1], "rotational velocities after do not depend on the world frame", atol=1e-5 * vs)
        c.close(q3[5], q[5], "energy changes do not depend on the world frame", atol=1e-4 * (1 + abs(q[5])), rtol=1e-5)
    c.count("moved frames")


def environment(c):
    ka = W.KINDS[c.index % len(W.KINDS)]
    a = W.spec(c, ka)
    fa = a.build().get_footprint()
    k = c.pick(["polygon", "polygon", "line", "ring", "contained"])
    size = math.sqrt(fa.area)
    if k == "contained":
        shape = T.small_inside(c, fa)
        if shape is None:
            return
    elif k == "line":
        # a segment that cuts through the body
        phi = c.ang()
        q = np.array(fa.centroid.coords[0]) + size * c.u(-0.3, 0.3) * np.array([-math.sin(phi), math.cos(phi)])
        L = size * 4 * np.array([math.cos(phi), math.sin(phi)])
        shape = LineString([q - L, q + L])
    else:
        s = W.random_polygon(c, 0.5, 2.0)
        off = T.place(c, fa, s)
        shape = translate(s, *off)
        if k == "ring":
            shape = LinearRing(shape.exterior.coords)
    g = ObstacleGeometry.default_static(e=c.u(0.05, 0.95)) if c.chance(0.6) else None
    obs = StaticObstacle(shape, geometry=g) if g is not None else StaticObstacle(shape)
    m = a.build()
    ctx = T.context({A: m}, [obs])
    before = T.velocity(m)
    c.note(a=(ka, a.x0, a.g), obstacle=shape.wkt, e=obs.geometry.e)
    try:
        r = resolve_collision_with_environment(A, m, obs, ctx.time)
    except CollisionException:
        c.count("unresolved")
        return
    if r is None:
        c.count("separating")
        return
    c.true(A in r.players and len(r.players) == 2, "parties named in a report with the environment", got=list(r.players))
    P, n, parts = record(ctx, r, (A,))
    c.close(parts[0][3][0], before[0], "reported velocity before impact", atol=1e-9)
    c.close(parts[0][3][1], before[1], "reported rotational velocity before impact", atol=1e-9)
    env = next(v for p, v in r.players.items() if p != A)
    parts.append((1.0, 1.0, P, T.rv(env.velocity), T.rv(env.velocity_after), float(env.energy_delta)))
    c.close(np.append(parts[1][3][0], parts[1][3][1]), [0, 0, 0], "the environment does not move", atol=0)
    c.close(np.append(parts[1][4][0], parts[1][4][1]), [0, 0, 0], "the environment is not moved", atol=0)
    laws(c, n, P, parts, min(a.g.e, obs.geometry.e), True)
    c.count("resolved with environment")
    c.situation(ka, "static", k)


def in_simulation(c):
    """The same laws in the steps of a running simulation with many bodies"""
    from vlib import simkit as K

    w = K.world(c, n=c.int(3, 6), kinds=W.FULLVEL, spread=3.5, missions=0.0, obstacles=0, max_steps=(5, 15))
    w.run()
    for r in w.ctx.collision_reports:
        if r.impact_point is None:
            continue
        P, n = np.array(r.impact_point.coords[0]), np.array(r.impact_normal, float)
        parts = []
        for p in r.players:
            rp, m = r.players[p], w.ctx.models[p]
            st = next(s for t, s in w.ctx.log[p].states if t == r.at_time) if r.at_time in w.ctx.log[p].states.timestamps \
                else m.get_state()
            parts.append((*T.inertia(m), np.array([st.x, st.y]), T.rv(rp.velocity), T.rv(rp.velocity_after), float(rp.energy_delta)))
        laws(c, n, P, parts, min(w.ctx.models[p].model_geometry.e for p in r.players), False)
        c.count("resolved in simulations")


FAMILIES = [("pairs", pairs, 2304, 40000), ("environment", environment, 720, 15000), ("simulations", in_simulation, 40, 1000)]
