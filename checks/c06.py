"""C06: impact zones cover the body and name the right side; reports name the zones that were hit."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import translate
from shapely.geometry import LineString, Point, Polygon
from shapely.ops import unary_union

from vlib import contact as T
from vlib import world as W
from vlib.core import rot
from dg_commons import PlayerName
from dg_commons.sim import IMPACT_BACK, IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.obstacles import StaticObstacle

ID = "C06"
RULE = ("distinct (model, zone, partner) combinations for which cover, containment and side of the zone, or the zones named in a report, "
        "were compared with geometry computed in the body frame")
REQUIRE = {"meshes": 200, "sided zones": 300, "parties with locations": 800, "not all sides hit": 200, "apex": 80, "zones met in a point": 100, "zones while driving": 500, "surroundings": 60}
MIN_SITUATIONS = 60
A, B = PlayerName("A"), PlayerName("B")
DIR = {IMPACT_FRONT: (1, 0), IMPACT_BACK: (-1, 0), IMPACT_LEFT: (0, 1), IMPACT_RIGHT: (0, -1)}


def body(sp, s):
    """Coordinates of a shape in the body frame"""
    q = np.array(s.exterior.coords if isinstance(s, Polygon) else s.coords)
    return (q - np.array([sp.x0.x, sp.x0.y])) @ rot(sp.x0.psi)


def mesh(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind)
    if c.chance(0.3):
        sp.x0.psi = c.int(-4, 4) * math.pi / 2
    m = sp.build()
    f, z = m.get_footprint(), m.get_mesh()
    c.note(kind=kind, x0=sp.x0, g=sp.g)
    tol = 1e-7 * (1 + f.area)
    for l, s in z.items():
        c.true(s.is_valid and s.area > 0, f"{kind}: zone {l} is a proper shape")
        c.le(s.difference(f.buffer(1e-7)).area, tol, f"{kind}: zone {l} lies within the footprint")
    c.le(f.difference(unary_union([s.buffer(1e-7) for s in z.values()])).area, tol, f"{kind}: the zones cover the footprint")
    c.true(set(z) <= set(DIR) | {IMPACT_EVERYWHERE}, "names of zones", got=list(z))
    ctr = body(sp, LineString([f.centroid, f.centroid]))[0]
    outline = body(sp, f)
    for l, s in z.items():
        if l not in DIR:
            c.close(s.area, f.area, f"{kind}: zone {l} is the whole body", atol=tol)
            continue
        d = np.array(DIR[l], float)
        q = body(sp, s) - ctr
        c.true(np.all(q @ d >= -1e-6), f"{kind}: zone {l} is on its side of the body", zone=q.tolist())
        # it contains the outermost part of the body in that direction
        ext = (outline - ctr) @ d
        mid = ctr + d * ext.max() * 0.999
        g = rot(sp.x0.psi) @ mid + np.array([sp.x0.x, sp.x0.y])
        c.le(s.distance(Point(*g)), 0.02 * ext.max(), f"{kind}: zone {l} reaches the {l} end of the body")
        c.count("sided zones")
        c.situation(kind, l)
    c.count("meshes")


def driven(c):
    """the zones go with the body: asked for again and again while it creeps, turns, stands and drives"""
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind)
    how = c.pick(["creeps", "drives", "stands", "turns"])
    if hasattr(sp.x0, "vx"):
        v = {"creeps": 10 ** c.u(-4, -0.5), "stands": 0.0}.get(how)
        if v is not None:
            sp.x0 = replace(sp.x0, vx=v, **({"vy": 0.0} if hasattr(sp.x0, "vy") else {}))
    m = sp.build()
    m.get_mesh()
    dt = D(c.pick(["0.01", "0.1", "0.001"]))
    for i in range(c.int(3, 12)):
        u = W.zero_command(kind) if how in ("creeps", "stands") else W.command(c, kind, sp.p)
        m.update(u, dt)
        if c.chance(0.3):
            continue
        z, n = m.get_mesh(), sp.build(replace(m.get_state())).get_mesh()
        c.eq(set(z), set(n), f"{kind}: the zones of a driven body", step=i)
        f = m.get_footprint()
        for l in z:
            c.le(np.abs(np.array(z[l].exterior.coords) - np.array(n[l].exterior.coords)).max() if len(z[l].exterior.coords) == len(n[l].exterior.coords) else 1.0, 1e-9 * (1 + abs(m.get_state().x) + abs(m.get_state().y)),
                 f"{kind}: zone {l} of a body that has been driven is that of a body put there", step=i, how=how, state=m.get_state())
            c.le(z[l].difference(f.buffer(1e-7)).area, 1e-7 * (1 + f.area), f"{kind}: zone {l} lies within the footprint of the driven body")
        c.count("zones while driving")
    c.situation(kind, "driven", how)


def named(c, sp, rep, zones, other, who):
    names = [l for l, _ in rep.locations]
    c.true(len(names) > 0, f"{sp.kind}: at least one impact location")
    c.eq(len(names), len(set(names)), f"{sp.kind}: every impact location is named once")
    for l, s in zones.items():
        if l in names:
            c.le(s.distance(other), 1e-7, f"{sp.kind}: impact location {l} meets the other party", partner=who)
            got = next(x for k, x in rep.locations if k == l)
            c.le(got.symmetric_difference(s).area, 1e-6, f"{sp.kind}: the shape of impact location {l} is that of the zone")
        else:
            i = s.intersection(other)
            c.true(i.area < 1e-9 and i.length < 1e-6, f"{sp.kind}: zone {l} meets the other party but is not named", partner=who,
                   named=names)
        c.situation(sp.kind, l, "hit" if l in names else "not hit")
    c.true(set(names) <= set(zones), f"{sp.kind}: only zones of the body are named", got=names)
    if len(names) < len(zones):
        c.count("not all sides hit")
    c.count("parties with locations")
    c.situation(sp.kind, "hit by", who)


def collisions(c):
    sided = [k for k in W.KINDS if k in W.KIN + W.DYN or k == "diff"]
    ka = c.pick(sided)
    kb = W.KINDS[c.index % len(W.KINDS)]
    a, b = T.pair(c, ka, kb)
    if c.chance(0.5):
        a, b = b, a
    ms = {A: a.build(), B: b.build()}
    f = {p: m.get_footprint() for p, m in ms.items()}
    z = {p: m.get_mesh() for p, m in ms.items()}
    c.note(a=(a.kind, a.x0, a.g), b=(b.kind, b.x0, b.g))
    try:
        r = resolve_collision(A, B, T.context(ms))
    except CollisionException:
        return
    if r is None:
        return
    named(c, a, r.players[A], z[A], f[B], b.kind)
    named(c, b, r.players[B], z[B], f[A], a.kind)
    for p in (A, B):
        c.le(r.players[p].footprint.symmetric_difference(f[p]).area, 1e-9, "the reported footprint is the body's")


def environment(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    a = W.spec(c, kind)
    m = a.build()
    f, z = m.get_footprint(), m.get_mesh()
    if c.chance(0.5):
        s = W.random_polygon(c, 0.5, 2)
        s = translate(s, *T.place(c, f, s))
        if c.chance(0.3):
            s = s.exterior
    else:
        phi, size = c.ang(), math.sqrt(f.area)
        q = np.array(f.centroid.coords[0]) + size * c.u(-0.35, 0.35) * np.array([-math.sin(phi), math.cos(phi)])
        L = size * 4 * np.array([math.cos(phi), math.sin(phi)])
        s = LineString([q - L, q + L])
    c.note(a=(kind, a.x0, a.g), obstacle=s.wkt)
    try:
        r = resolve_collision_with_environment(A, m, StaticObstacle(s), 1)
    except CollisionException:
        return
    if r is not None:
        named(c, a, r.players[A], z, s, "environment")
        surroundings(c, r, s)


def surroundings(c, r, s):
    """The environment as a party: the obstacle hit, at rest"""
    rest = [p for p in r.players if p != A]
    c.eq(len(rest), 1, "one party is the environment", got=rest)
    e = r.players[rest[0]]
    c.true(not e.at_fault, "obstacles are not at fault")
    c.true(r.players[A].at_fault, "running into an obstacle is the player's fault")
    for v in (e.velocity, e.velocity_after):
        c.close(np.append(np.array(v[0], float), v[1]), np.zeros(3), "obstacles are at rest")
    c.close(e.energy_delta, 0.0, "obstacles take up no energy")
    shapes = [e.footprint] + [x for _, x in e.locations]
    for x in shapes:
        c.true(isinstance(x, Polygon) and x.area > 0, "the environment is reported with an outline", got=x.wkt)
        if isinstance(s, Polygon):
            c.le(x.symmetric_difference(s).area, 1e-9 * (1 + s.area), "the outline reported of the environment is the obstacle's")
        else:
            far = max(x.distance(Point(q)) for q in s.coords)
            c.le(far, 1e-6, "the outline reported of the environment takes in the whole obstacle")
            if s.is_ring:
                c.le(x.symmetric_difference(Polygon(s)).area, 1e-9 * (1 + x.area), "the outline reported of the environment is what the obstacle encloses")
            c.true(x.within(s.convex_hull.buffer(0.01)), "the outline reported of the environment is about the obstacle", got=x.wkt)
    c.count("surroundings")
    c.situation("surroundings", type(s).__name__)


def apex(c):
    """The other party reaches exactly the point where the zones meet: each of them is met, some only in that point"""
    kind = c.pick([k for k in W.KINDS if k in W.KIN + W.DYN or k == "diff"])
    a = W.spec(c, kind)
    m = a.build()
    f, z = m.get_footprint(), m.get_mesh()
    sided = [l for l in z if l in DIR]
    common = set.intersection(*[set(z[l].exterior.coords) for l in sided]) if len(sided) > 2 else set()
    if not common:
        return
    o = np.array(sorted(common)[0])
    l = c.pick(sided)
    far = np.array(f.centroid.coords[0]) + 3 * math.sqrt(f.area) * rot(a.x0.psi) @ np.array(DIR[l], float) - o
    s = Polygon([o, o + far + c.u(0.05, 0.3) * np.array([far[1], -far[0]]) / 9, o + far - c.u(0.05, 0.3) * np.array([far[1], -far[0]]) / 9])
    exp = {k for k, x in z.items() if x.intersects(s)}
    c.note(a=(kind, a.x0, a.g), obstacle=s.wkt)
    for _ in range(4):
        try:
            r = resolve_collision_with_environment(A, m, StaticObstacle(s), 1)
        except CollisionException:
            return
        if r is not None:
            break
        m = W.Spec(a.kind, W.state(c, a.kind, a.p, a.g, at=(a.x0.x, a.x0.y, a.x0.psi)), a.g, a.p, a.shape).build()
    else:
        return
    names = {k for k, _ in r.players[A].locations}
    c.eq(names, exp, f"{kind}: impact locations of a body reached up to the point where its zones meet", side=l)
    c.count("apex")
    c.count("zones met in a point", sum(z[k].touches(s) for k in names))
    c.situation("apex", kind, l, len(exp))


FAMILIES = [("driven", driven, 200, 4000), ("apex", apex, 300, 6000), ("mesh", mesh, 240, 10000), ("collisions", collisions, 1500, 20000), ("environment", environment, 480, 8000)]
