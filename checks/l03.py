"""L03: road boundaries enclose the road and stay open only at its gates."""
import math

import numpy as np
from commonroad.common.file_reader import CommonRoadFileReader
from shapely.geometry import LineString, MultiPolygon, Point, Polygon
from shapely.ops import unary_union

from vlib import roads as R
from dg_commons.maps.road_bounds import build_road_boundary_obstacle

ID = "L03"
RULE = ("distinct (layout, buffer class, number of gates, holes, pieces) classes in which the boundaries built by the real code were compared with "
        "the outline of the union of the lanes computed independently")
REQUIRE = {"scenarios": 200, "gates": 400, "holes": 40, "boundary pieces": 400, "probes": 8000, "without gates": 20}
MIN_SITUATIONS = 40
CPU_LIMIT = 300


def chain(c, first, at=None, n=None, kmax=0.04, close=True, r=None):
    """a road of several lanelets; possibly with a link missing (dead ends in the middle)"""
    n = c.int(1, 4) if n is None else n
    m = c.int(3, 8)
    r = c.u(1.5, 3) if r is None else r
    start = at or (c.u(-60, 60), c.u(-60, 60), c.ang())
    pts, ths = R.centerline(c, n=n * (m - 1) + 1, ds=c.u(2, 6), kmax=kmax, start=start)
    out = []
    for i in range(n):
        s = slice(i * (m - 1), (i + 1) * (m - 1) + 1)
        pred = [first + i - 1] if i else []
        succ = [first + i + 1] if i < n - 1 else []
        out.append(R.lanelet(first + i, pts[s], ths[s], np.full(m, r), pred, succ))
    return out


def layout(c):
    k = c.pick(["road", "road", "ring", "ring", "two roads", "crossing", "junction", "pieces", "parallel", "ring with access", "dead end inside", "figure of two rings", "opposite", "broken links", "staggered"])
    if k == "road":
        return k, chain(c, 1)
    if k == "ring":
        return k, R.ring(c, radius=c.u(10, 40), n=c.int(3, 9), r=c.u(1, 3), at=(c.u(-50, 50), c.u(-50, 50)), phase=c.ang(), cw=c.chance(0.5), m=c.int(5, 9))
    if k == "two roads":
        return k, chain(c, 1, at=(0, 0, c.ang())) + chain(c, 20, at=(c.u(5, 30), c.u(5, 30), c.ang()))
    if k == "crossing":
        a = c.ang()
        l = c.u(15, 40)
        d, e = np.array([math.cos(a), math.sin(a)]) * l, None
        b = a + c.u(0.6, 2.5)
        e = np.array([math.cos(b), math.sin(b)]) * l
        return k, [R.straight(1, -d, d, c.u(1.5, 3)), R.straight(2, -e, e, c.u(1.5, 3))]
    if k == "junction":
        a = c.ang()
        out = [R.straight(1, (-30 * math.cos(a), -30 * math.sin(a)), (0, 0), 2.0, succ=[2, 3])]
        for lid, kap in ((2, c.u(0.02, 0.05)), (3, -c.u(0.02, 0.05))):
            n, ds = 6, 5.0
            P, T, x, y, th = [(0.0, 0.0)], [a], 0.0, 0.0, a
            for _ in range(n - 1):
                x += (math.sin(th + kap * ds) - math.sin(th)) / kap
                y += (-math.cos(th + kap * ds) + math.cos(th)) / kap
                th += kap * ds
                P.append((x, y))
                T.append(th)
            out.append(R.lanelet(lid, P, T, np.full(n, 2.0), [1], []))
        return k, out
    if k == "pieces":
        out = []
        for i in range(c.int(2, 4)):
            out += chain(c, 1 + 10 * i, at=(200.0 * i, c.u(-20, 20), c.ang()), n=c.int(1, 2))
        if c.chance(0.5):
            out += R.ring(c, first=80, at=(-300, 0), radius=c.u(8, 20), n=4)
        return k, out
    if k in ("parallel", "opposite"):
        a, l, r = c.ang(), c.u(20, 60), c.u(1.5, 3)
        d, nrm = np.array([math.cos(a), math.sin(a)]) * l, np.array([-math.sin(a), math.cos(a)]) * 2 * r
        out = [R.straight(1, (0, 0), d, r)]
        for i in range(c.int(1, 3)):
            o = nrm * (i + 1)
            out.append(R.straight(2 + i, o, d + o, r) if k == "parallel" else R.straight(2 + i, d + o, o, r))
        return k, out
    if k == "staggered":  # parallel lanes which begin and end one a little before the other: short pieces of boundary between gates
        a, l, r = c.ang(), c.u(20, 60), c.u(1.5, 3)
        e = np.array([math.cos(a), math.sin(a)])
        nrm = np.array([-e[1], e[0]]) * 2 * r
        out, s0, s1 = [], 0.0, l
        for i in range(c.int(2, 4)):
            o = nrm * i
            ends = [e * s0 + o, e * s1 + o]
            out.append(R.straight(1 + i, *(ends if c.chance(0.7) else ends[::-1]), r))
            s0, s1 = (x + c.sign() * c.pick([c.u(0.3, 1.5), c.u(1, 4)]) for x in (s0, s1))
        return k, out
    if k == "ring with access":
        out = R.ring(c, radius=20.0, n=6, r=2.0, m=7)
        a = c.ang()
        p = np.array([math.cos(a), math.sin(a)])
        out.append(R.straight(50, p * 50, p * 20, 1.8, succ=[1]))
        if c.chance(0.5):
            out.append(R.straight(51, p * 20 + [0, 0.0], p * -50, 1.8, pred=[1]) if False else R.straight(51, p * -20, p * -50, 1.8, pred=[4]))
        return k, out
    if k == "dead end inside":
        out = R.ring(c, radius=30.0, n=6, r=2.0, m=9)
        a = c.ang()
        p = np.array([math.cos(a), math.sin(a)])
        out.append(R.straight(50, p * 30, p * c.u(5, 15), 1.8, pred=[1]))
        return k, out
    if k == "figure of two rings":
        return k, R.ring(c, first=1, radius=20.0, n=5, r=2.0, at=(0, 0)) + R.ring(c, first=20, radius=20.0, n=5, r=2.0, at=(c.u(25, 38), 0), cw=True)
    # broken links: a geometrically continuous road whose lanelets do not know each other
    out = chain(c, 1, n=c.int(2, 4))
    i = c.int(0, len(out) - 2)
    kw = lambda l, **o: R.Lanelet(left_vertices=l.left_vertices, center_vertices=l.center_vertices, right_vertices=l.right_vertices, lanelet_id=l.lanelet_id,
                                  predecessor=o.get("pred", l.predecessor), successor=o.get("succ", l.successor))
    out[i], out[i + 1] = kw(out[i], succ=[]), kw(out[i + 1], pred=[])
    return k, out


def judge(c, k, lanelets, sc, buffer, explicit=True):
    bounds, gates = build_road_boundary_obstacle(sc, buffer=buffer) if explicit else build_road_boundary_obstacle(sc)
    polys = [Polygon(np.vstack([l.right_vertices, l.left_vertices[::-1]])).buffer(buffer) for l in lanelets]
    road = unary_union(polys)
    parts = list(getattr(road, "geoms", [road]))
    secs = []
    for l in lanelets:
        if not l.successor:
            secs.append(LineString([l.left_vertices[-1], l.right_vertices[-1]]))
        if not l.predecessor:
            secs.append(LineString([l.left_vertices[0], l.right_vertices[0]]))
    eps = 1e-6 * (1 + max(abs(x) for x in road.bounds))
    outer = [p.exterior for p in parts]
    holes = [i for p in parts for i in p.interiors]
    for b in bounds:
        c.true(isinstance(b, LineString) and not b.is_empty and b.length > 0, "boundaries are lines", b=b)
        c.count("boundary pieces")
    out = road.boundary.buffer(10 * eps)
    for b in bounds:
        c.true(out.covers(b), "boundaries lie on the outline of the road", off=b.difference(out).length, layout=k, buffer=buffer)
    together = unary_union([b.buffer(10 * eps) for b in bounds]) if bounds else Polygon()
    # every hole is closed
    for h in holes:
        c.le(h.difference(together).length, 1e-3, "holes of the road are bounded all around", layout=k, buffer=buffer)
        c.count("holes")
    # the outline is covered away from the gates
    near = unary_union([s.buffer(3 * buffer) for s in secs]) if secs else Polygon()
    for o in outer:
        rest = o.difference(near)
        c.le(rest.difference(together).length, 1e-3, "the outline is closed away from the gates", layout=k, buffer=buffer)
    # and open at the gates
    for s in secs:
        wide = s.buffer(1.3 * buffer)
        for o in outer:
            gap = o.intersection(wide)
            if not gap.is_empty:
                inner = gap.difference(unary_union([h.buffer(10 * eps) for h in holes])) if holes else gap
                c.le(inner.intersection(together).length, 1e-3, "gates stay open", layout=k, buffer=buffer, gate=s.wkt)
        c.count("gates")
    c.eq(len(gates), len(secs), "one gate per end without continuation")
    for s in secs:
        c.true(any(g.buffer(1e-6).covers(s) for g in gates), "each gate covers its section")
        # a gate's section is also visible in the gates reported, and nothing far from it
    for g in gates:
        c.true(any(s.buffer(2.5 * buffer).covers(g) for s in secs), "no gate where the road continues")
    # probing from within: leaving the road means crossing a boundary or a gate
    gate_area = unary_union([s.buffer(3 * buffer) for s in secs]) if secs else Polygon()
    lines = unary_union(bounds) if bounds else LineString()
    big = 3 * max(1.0, road.length)
    for _ in range(40):
        l = c.pick(lanelets)
        j = c.int(0, len(l.center_vertices) - 1)
        p = l.center_vertices[j]
        a = c.ang()
        ray = LineString([p, p + big * np.array([math.cos(a), math.sin(a)])])
        blocked = ray.distance(lines) < 1e-6 if bounds else False
        gate = ray.intersects(gate_area)
        c.true(blocked or gate, "every way out of the road crosses a boundary or a gate", ray=ray.wkt, layout=k, buffer=buffer)
        c.count("probes")
    c.count("scenarios")
    if not secs:
        c.count("without gates")
    c.situation(k, "b" + str(0 if buffer < 0.1 else 1 if buffer == 0.1 else 2), "gates", min(len(secs), 3), "holes", min(len(holes), 2), "pieces", min(len(parts), 2))


def synthetic(c):
    k, ls = layout(c)
    buffer = c.pick([0.1, 0.1, c.u(0.02, 0.09), c.u(0.11, 0.5)]) if k != "staggered" else c.pick([0.1, c.u(0.02, 0.09)])
    sc = R.scenario(ls)
    before = [(l.left_vertices.copy(), l.right_vertices.copy()) for l in sc.lanelet_network.lanelets]
    c.note(layout=k, buffer=buffer)
    judge(c, k, sc.lanelet_network.lanelets, sc, buffer, explicit=buffer != 0.1 or c.chance(0.5))
    for l, (a, b) in zip(sc.lanelet_network.lanelets, before):
        c.true(np.array_equal(l.left_vertices, a) and np.array_equal(l.right_vertices, b), "building the boundaries leaves the scenario alone")


FILES = ["ESP_Barcelona-20_23_T-1", "USA_Lanker-1_1_T-1", "USA_Phoenix-51_10_T-1"]


def recorded(c):
    f = FILES[c.index % 3]
    sc, _ = CommonRoadFileReader(f"/repo/scenarios/testing/{f}.xml").open()
    judge(c, f, sc.lanelet_network.lanelets, sc, c.pick([0.1, 0.05, 0.2]))


FAMILIES = [("synthetic", synthetic, 240, 3000), ("recorded", recorded, 3, 9)]
