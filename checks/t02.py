"""T02: shapes handed to the collision checker cover what they should."""
from vlib import triangulate  # before anything of dg_commons
import math

import numpy as np
from commonroad_dc import pycrcc
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiPolygon, Point, Polygon)

from vlib import world as W
from dg_commons.geo import sLine2crPolygon, sPolygon2crPolygon, shapely2crPolygons

ID = "T02"
RULE = "distinct (geometry type, number of vertices, orientation, convexity, place of the probe) classes in which the collision checker and the shape agreed"
REQUIRE = {"probes": 12000, "inside": 2500, "near lines": 1200, "polygons": 150, "lines": 150, "refused": 20, "short segments": 60, "rays": 1000, "probes of twins": 3000}
MIN_SITUATIONS = 30
R = 1e-4  # radius of a probe


def hit(shapes, x, y):
    p = pycrcc.Circle(R, float(x), float(y))
    return any(s.collide(p) for s in shapes)


def probes(c, s, n=40):
    x0, y0, x1, y1 = s.bounds
    out = [(c.u(x0 - 0.5, x1 + 0.5), c.u(y0 - 0.5, y1 + 0.5)) for _ in range(n)]
    line = s.exterior if isinstance(s, Polygon) else s
    for _ in range(n):
        p = line.interpolate(c.u(0, 1), normalized=True)
        a, r = c.ang(), c.pick([0.003, 0.02, 0.05, 0.3])
        out.append((p.x + r * math.cos(a), p.y + r * math.sin(a)))
    return out


def polygons(c):
    s = W.random_polygon(c, 0.5, 5, n=c.int(3, 12), convex=c.chance(0.3))
    dx, dy = c.pick([(0, 0), (c.u(-9, 9), c.u(-9, 9)), (c.u(-500, 500), c.u(-500, 500))])
    pts = [(x + dx, y + dy) for x, y in s.exterior.coords]
    if c.chance(0.5):
        pts = pts[::-1]
    s = Polygon(pts)
    wkb = s.wkb
    direct = c.chance(0.3)
    got = [sPolygon2crPolygon(s)] if direct else shapely2crPolygons(s)
    c.eq(s.wkb, wkb, "the shape is not modified")
    c.eq(len(got), 1, "one collision shape for a polygon")
    v = np.array(got[0].vertices())
    c.eq(len(v), len(pts) - 1, "one vertex per corner, none twice")
    c.close(np.array(sorted(map(tuple, v))), np.array(sorted(pts[:-1])), "vertices of the collision shape", atol=1e-9 * (1 + abs(dx) + abs(dy)))
    for x, y in probes(c, s):
        p = Point(x, y)
        d = s.exterior.distance(p)
        if d < 2 * R + 1e-9 * (abs(x) + abs(y)):
            continue
        inside = s.contains(p)
        c.eq(hit(got, x, y), inside, "a point collides with the collision shape iff it lies in the polygon", point=(x, y), polygon=pts, distance=d)
        c.count("probes")
        if inside:
            c.count("inside")
        c.situation("polygon", "inside" if inside else "outside", "convex" if s.convex_hull.area - s.area < 1e-9 else "concave",
                    "ccw" if s.exterior.is_ccw else "cw", d < 0.1)
    rays(c, got, s, [s])
    c.count("polygons")


def rays(c, got, s, areas):
    """What a ray meets: nothing where it stays clear of the shape, something where it crosses it"""
    cc = pycrcc.CollisionChecker()
    for g in got:
        cc.add_collision_object(g)
    x0, y0, x1, y1 = s.bounds
    for _ in range(10):
        a, b = (c.u(x0 - 1, x1 + 1), c.u(y0 - 1, y1 + 1)), (c.u(x0 - 1, x1 + 1), c.u(y0 - 1, y1 + 1))
        ray = LineString([a, b])
        if ray.length < 0.1 or any(q.exterior.distance(Point(e)) < 1e-3 for q in areas for e in (a, b)):
            continue
        chord = max(ray.intersection(q).length for q in areas)
        met = bool(cc.raytrace(*a, *b, False))
        if chord > 1e-2:
            c.true(met, "a ray through the shape meets it", ray=(a, b), chord=chord)
            c.count("rays")
        elif min(ray.distance(q) for q in areas) > 1e-3:
            c.true(not met, "a ray that passes clear of the shape does not meet it", ray=(a, b))
            c.count("rays")


def lines(c):
    n = c.int(2, 7)
    fine = c.chance(0.3)  # sampled finely, segments shorter than the line is thick
    ring = not fine and n > 3 and c.chance(0.5)
    if ring:
        s = LinearRing(W.random_polygon(c, 1, 5, n=n).exterior.coords)
    else:
        at, th, pts = np.array([c.u(-9, 9), c.u(-9, 9)]), c.ang(), []
        for _ in range(n):
            pts.append(tuple(at))
            th += c.u(-1, 1)
            at = at + (10 ** c.u(-3, -1) if fine and c.chance(0.8) else c.u(0.05, 3)) * np.array([math.cos(th), math.sin(th)])
        s = LineString(pts)
    wkb = s.wkb
    got = sLine2crPolygon(s) if c.chance(0.3) else shapely2crPolygons(s)
    c.eq(s.wkb, wkb, "the shape is not modified")
    k = len(s.coords) - 1
    c.eq(len(got), k, "one collision shape per segment")
    co = list(s.coords)
    for g, e in zip(got, zip(co[:-1], co[1:])):
        seg = LineString(e)
        if seg.length < 0.02:
            c.count("short segments")
        v = [Point(p) for p in g.vertices()]
        c.le(max(p.distance(seg) for p in v), 0.0101, "the collision shape of a segment stays with its segment")
        for _ in range(3):
            m = seg.interpolate(c.u(0, 1), normalized=True)
            c.true(hit([g], m.x, m.y), "every segment is covered by its own collision shape", segment=e, point=(m.x, m.y))
    for x, y in probes(c, s):
        d = s.distance(Point(x, y))
        if abs(d - 0.01) < 2.5e-3:
            continue
        c.eq(hit(got, x, y), d < 0.01, "a point collides iff it lies on the line, thick two centimetres", point=(x, y), line=co, distance=d)
        c.count("probes")
        if d < 0.01:
            c.count("near lines")
        c.situation(s.geom_type, k, d < 0.01, fine)
    rays(c, got, s, [LineString(e).buffer(0.01) for e in zip(co[:-1], co[1:])])
    c.count("lines")


def twins(c):
    """outlines that share their bounds, their area and their number of corners, converted one after the other"""
    n = c.int(3, 9)
    q = 2.0 ** -6
    ring = np.round(np.array(W.random_polygon(c, 1, 5, n=n).exterior.coords) / q) * q
    s0 = Polygon(ring)
    if not s0.is_valid or s0.area < 0.3:
        return
    x0, y0, x1, y1 = s0.bounds
    mid = np.array([x0 + x1, y0 + y1])
    kin = {"itself": ring, "flipped": mid * [1, 0] + ring * [-1, 1], "upside down": mid * [0, 1] + ring * [1, -1], "turned": mid - ring, "backwards": ring[::-1], "started elsewhere": np.vstack([ring[1:], ring[1:2]])}
    shift = np.array([c.u(-50, 50), c.u(-50, 50)])
    kin["elsewhere"] = ring + shift
    names = list(kin)
    c.rng.shuffle(names)
    hollow = c.chance(0.4)
    for k in names:
        pts = kin[k]
        s = LinearRing(pts) if hollow else Polygon(pts)
        if not s.is_valid:
            continue
        got = shapely2crPolygons(s)
        c.eq(len(got), len(pts) - 1 if hollow else 1, "the number of collision shapes", how=k)
        if not hollow:
            v = np.array(got[0].vertices())
            c.close(np.array(sorted(map(tuple, v))), np.array(sorted(map(tuple, pts[:-1]))), "the vertices of an outline converted after similar ones", atol=1e-9 * (1 + np.abs(pts).max()), how=k, outline=pts)
        for x, y in probes(c, s, 6):
            d = (s if hollow else s.exterior).distance(Point(x, y))
            if abs(d - (0.01 if hollow else 0)) < 2.5e-3:
                continue
            want = d < 0.01 if hollow else s.contains(Point(x, y))
            c.eq(hit(got, x, y), want, "outlines alike are told apart", point=(x, y), how=k, outline=pts)
            c.count("probes of twins")
        c.situation("twin", "ring" if hollow else "polygon", k)


def others(c):
    s = c.pick([Point(c.u(-1, 1), 0), MultiPolygon([W.random_polygon(c, 1, 2)]), GeometryCollection([Point(0, 0)]), "POINT (0 0)", None])
    c.raises(lambda: shapely2crPolygons(s), "shapes that cannot be converted are refused", exc=ValueError)
    c.count("refused")
    c.situation("refused", type(s).__name__)


FAMILIES = [("polygons", polygons, 200, 4000), ("twins", twins, 120, 2500), ("lines", lines, 200, 4000), ("others", others, 30, 60)]
