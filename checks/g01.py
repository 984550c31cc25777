"""G01: goals are fulfilled exactly by the states they describe."""
import math
from decimal import Decimal as D

import numpy as np
from shapely.geometry import Point, Polygon

from vlib import roads as R, world as W
from vlib.core import rot, wrap
from vlib.curve import Curve
from dg_commons import SE2Transform
from dg_commons.sim.goals import PolygonGoal, PoseGoal, RefLaneGoal

ID = "G01"
RULE = ("distinct (goal, kind of state, place of the state relative to the goal, expected answer) classes in which real goals were asked and the "
        "answers compared with analytic predicates")
REQUIRE = {"polygon": 3000, "holes": 250, "on the border": 250, "pose": 2000, "lane": 2500, "moved": 1500, "asked again": 3000, "fulfilled": 2000, "displayed": 300, "rim": 600}
MIN_SITUATIONS = 60


def put(c, kind, x, y, th):
    """a state of the given kind at a pose"""
    p = W.parameters(c, kind)
    s = W.state(c, kind, p)
    d = {**W.as_dict(s), "x": float(x), "y": float(y), "psi": float(th)}
    return type(s)(**d)


def winding(poly, p):
    """even-odd rule and distance to the border"""
    inside, dist = False, math.inf
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0]:
            inside = not inside
        t = np.clip(np.dot(p - a, b - a) / np.dot(b - a, b - a), 0, 1)
        dist = min(dist, math.hypot(*(p - a - t * (b - a))))
    return inside, dist


def at(c):
    return c.pick([{}, {"at": c.u(0, 10)}, {"at": D("1.5")}, {"at": 0}])


def ask(c, goal, s, e, msg, **kw):
    """asks twice, with other questions and other times in between"""
    before = W.vals(s).copy()
    r = goal.is_fulfilled(s, **at(c))
    c.true(isinstance(r, (bool, np.bool_)), "the answer is yes or no", r=r)
    c.eq(bool(r), e, msg, state=s, **kw)
    c.eq(bool(goal.is_fulfilled(s, **at(c))), e, "asking again gives the same answer", state=s, **kw)
    c.close(W.vals(s), before, "asking does not change the state", atol=0, rtol=0)
    c.count("asked again")
    c.count("fulfilled", int(e))


def shape(c):
    k = c.pick(["convex", "star", "thin", "rect", "L", "waves"])
    if k == "convex":
        a = np.sort([c.u(0, 2 * math.pi) for _ in range(c.int(5, 9))])
        p = np.stack([np.cos(a), np.sin(a)], 1) * [c.u(1, 8), c.u(1, 8)]
        p = np.array(Polygon(p).convex_hull.exterior.coords)[:-1]
    elif k == "star":
        n = c.int(5, 11)
        a = 2 * math.pi * np.arange(n) / n
        p = np.stack([np.cos(a), np.sin(a)], 1) * np.array([[c.u(1, 8)] for _ in a])
    elif k == "waves":  # many corners
        n = c.int(25, 160)
        a = 2 * math.pi * np.arange(n) / n
        r = c.u(4, 9) + c.u(0.3, 3) * np.sin(c.int(2, 6) * a + c.ang())
        p = np.stack([np.cos(a), np.sin(a)], 1) * r[:, None]
    elif k == "thin":
        p = np.array([[0, 0], [c.u(5, 30), 0], [c.u(5, 30), c.u(0.1, 0.5)], [0, c.u(0.1, 0.5)]])
    elif k == "rect":
        w, h = c.int(1, 9), c.int(1, 9)
        p = np.array([[0.0, 0], [w, 0], [w, h], [0, h]])
    else:
        p = np.array([[0.0, 0], [8, 0], [8, 3], [3, 3], [3, 9], [0, 9]])
    if k not in ("rect", "L"):
        p = p @ rot(c.ang()).T + [c.u(-50, 50), c.u(-50, 50)]
    else:
        p = p + [c.int(-20, 20), c.int(-20, 20)]
    return k, p


def holes(c, p):
    """Small regions strictly inside an outline, clear of its border and of each other"""
    out = []
    for _ in range(c.int(1, 3)):
        for _ in range(30):
            q = np.array([c.u(p[:, 0].min(), p[:, 0].max()), c.u(p[:, 1].min(), p[:, 1].max())])
            inside, d = winding(p, q)
            if inside and d > 0.2:
                r = c.u(0.3, 0.8) * d
                n = c.int(3, 6)
                h = q + r * np.array([[math.cos(a), math.sin(a)] for a in 2 * math.pi * np.arange(n) / n])
                if all(math.hypot(*(q - q1)) > r + r1 + 0.05 for q1, r1, _ in out):
                    out.append((q, r, h))
                    break
    return [h for _, _, h in out]


def polygon(c):
    k, p = shape(c)
    hs = holes(c, p) if k not in ("thin",) and c.chance(0.4) else []
    poly = Polygon(p, hs)
    goal = PolygonGoal(poly)
    c.note(polygon=p)
    wkb = poly.wkb
    a, t = c.ang(), np.array([c.u(-80, 80), c.u(-80, 80)])
    moved = PolygonGoal(Polygon(p @ rot(a).T + t, [h @ rot(a).T + t for h in hs]))
    lo, hi = p.min(axis=0), p.max(axis=0)
    span = hi - lo
    for _ in range(14):
        how = c.pick(["around", "around", "near border", "far"] + ["in a hole", "near a hole"] * bool(hs))
        if how == "around":
            q = np.array([c.u(lo[0] - 0.2 * span[0], hi[0] + 0.2 * span[0]), c.u(lo[1] - 0.2 * span[1], hi[1] + 0.2 * span[1])])
        elif how == "far":
            q = hi + np.array([c.u(5, 100), c.u(5, 100)]) * c.sign()
        elif how == "in a hole":
            h = c.pick(hs)
            q = h.mean(axis=0) + [c.u(-1e-3, 1e-3), c.u(-1e-3, 1e-3)]
        else:
            r = p if how == "near border" else c.pick(hs)
            i = c.int(0, len(r) - 1)
            u, v = r[i], r[(i + 1) % len(r)]
            n = np.array([-(v - u)[1], (v - u)[0]]) / math.hypot(*(v - u))
            q = u + c.u(0.1, 0.9) * (v - u) + c.sign() * c.pick([1e-3, 1e-5, 0.03]) * n
        inside, dist = winding(p, q)
        for h in hs:
            within, d = winding(h, q)
            inside, dist = inside and not within, min(dist, d)
        c.count("holes", how.endswith("hole"))
        if dist < 1e-7:
            continue
        kind = c.pick(W.KINDS)
        s = put(c, kind, *q, c.ang(2))
        ask(c, goal, s, inside, "a polygon goal is fulfilled exactly strictly inside", border=dist)
        c.count("polygon")
        c.situation("polygon", k, how, inside)
        c.situation("kind", kind, inside)
        if dist > 1e-5:
            z = rot(a) @ q + t
            ask(c, moved, put(c, kind, *z, s.psi + a), inside, "fulfilment does not change when goal and state move together")
            c.count("moved")
    if k in ("rect", "L"):  # exactly representable points of the border
        for i in range(len(p)):
            for q in (p[i], (p[i] + p[(i + 1) % len(p)]) / 2):
                ask(c, goal, put(c, c.pick(W.KINDS), *q, c.ang()), False, "on the border a polygon goal is not fulfilled")
                c.count("on the border")
                c.situation("polygon", k, "on the border")
    g = goal.get_plottable_geometry(**at(c))
    c.true(g.equals(poly) and goal.goal.wkb == wkb, "what is displayed is the goal region, unchanged")
    c.count("displayed")
    c.true(goal.is_static, "goals stay")


def pose(c):
    p, th = np.array([c.u(-50, 50), c.u(-50, 50)]), c.pick([c.ang(), c.ang(3), math.pi, -math.pi, 0.0])
    tol = c.pick([None, 1e-7, 1e-3, 0.1, 0.5])
    goal = PoseGoal(SE2Transform(p, th)) if tol is None else PoseGoal(SE2Transform(p, th), tol=tol)
    tol = 1e-7 if tol is None else tol
    a, t = c.ang(), np.array([c.u(-80, 80), c.u(-80, 80)])
    moved = PoseGoal(SE2Transform(rot(a) @ p + t, th + a), tol=tol)
    for _ in range(14):
        how = c.pick(["exact", "turns", "close", "position", "heading", "opposite", "far", "both"])
        d, e, dd = np.zeros(2), 0.0, c.ang()
        u = np.array([math.cos(dd), math.sin(dd)])
        want = True
        if how == "turns":
            e = 2 * math.pi * c.int(-2, 2)
        elif how == "close":
            d, e = u * tol * c.u(0, 0.5), tol * c.u(-0.5, 0.5)
        elif how == "position":
            d, e, want = u * tol * c.u(1.01, 3) + u * 1e-9, c.u(-0.3, 0.3) * tol, False
        elif how == "heading":
            e, d, want = c.sign() * min(tol * c.u(1.05, 3) + 1e-9, 3), u * tol * c.u(0, 0.3), False
        elif how == "opposite":
            e, want = math.pi, False
        elif how == "far":
            d, e, want = u * c.u(1, 50), c.ang(), False
        elif how == "both":
            d, e, want = u * tol * c.u(0.9, 2) * 1.2, c.sign() * tol * c.u(1.1, 2), False
        if tol < 1e-6 and how == "turns":
            pass  # rounding of two turns is far below the tolerance
        kind = c.pick(W.KINDS)
        s = put(c, kind, *(p + d), th + e)
        ask(c, goal, s, want, "a pose goal is fulfilled exactly where the pose matches", target=(p, th), tol=tol, how=how)
        c.count("pose")
        c.situation("pose", kind, how)
        if tol > 1e-6:
            # on the edge rounding decides: stay off it
            ask(c, moved, put(c, kind, *(rot(a) @ (p + d) + t), th + e + a), want, "fulfilment does not change when goal and state move together", how=how)
            c.count("moved")
    g = goal.get_plottable_geometry(**at(c))
    c.true(not g.is_empty and g.distance(Point(p)) < 0.3, "the displayed goal is at the goal pose")
    loc = (np.array(g.exterior.coords) - p) @ rot(th)
    ref = np.array([(-0.2, 0.5), (0, 0), (-0.2, -0.5), (0.8, 0)])
    c.true(abs(loc[:, 1].max() + loc[:, 1].min()) < 1e-6 and loc[:, 0].max() > -loc[:, 0].min(), "the displayed goal points along the goal heading", local=loc)
    c.close(goal.goal_pose.p, p, "the goal stays", atol=0)
    c.count("displayed")


def lane(c):
    k = c.pick(["straight", "gentle"])
    n = c.int(4, 20)
    pts, ths = R.centerline(c, n=n, ds=c.u(1, 5), straight=k == "straight", kmax=0.02)
    rs = R.widths(c, n)
    ref, ln = Curve(pts, ths, rs), R.dg_lane(pts, ths, rs)
    at_ = c.pick(["inside", "inside", "inside", "at a control point", "at the end", "at the start"])
    s0 = {"inside": c.u(0.1, 0.9) * ref.L, "at a control point": ref.s(c.int(1, n - 2)), "at the end": ref.L, "at the start": 0.0}[at_]
    goal = RefLaneGoal(ln, goal_progress=s0)
    q0 = ref.at(ref.beta(s0))
    r0 = ref.radius(ref.beta(s0))
    a, t = c.ang(), np.array([c.u(-80, 80), c.u(-80, 80)])
    if c.chance(0.4):  # turned about its beginning
        t = pts[0] - rot(a) @ pts[0]
    moved = RefLaneGoal(R.dg_lane(pts @ rot(a).T + t, ths + a, rs), goal_progress=s0)
    c.note(pts=pts, ths=ths, rs=rs, s0=s0)
    # how precisely the code finds the foot point on the lane
    prec = 3e-3 * (2 + n) * max(ref.lengths + [1.0])
    for _ in range(12):
        how = c.pick(["past", "past", "before", "too far past", "beside", "far", "at the rim", "at the rim"])
        rim = c.pick([1e-4, 1e-3, 5e-3, 0.03]) * c.sign() if how == "at the rim" else None
        ds = {"at the rim": 1 + (rim or 0), "past": c.u(0.02, 0.97), "before": -c.u(0.02, 0.97), "too far past": c.u(1.03, 5), "beside": c.u(-0.9, 0.9), "far": c.u(3, 20) * c.sign()}[how]
        lat = c.u(-0.98, 0.98) * r0 if how != "beside" else c.sign() * (r0 + c.u(1.03, 4))
        z = ref.at(ref.beta(s0 + ds))
        p = z[:2] + lat * np.array([-math.sin(z[2]), math.cos(z[2])])
        # within a metre of the cross-section
        nrm = np.array([-math.sin(q0[2]), math.cos(q0[2])])
        if rim is not None:
            p = q0[:2] + lat * nrm + (1 + rim) * np.array([math.cos(q0[2]), math.sin(q0[2])])
            c.count("rim")
        lat0 = np.clip(np.dot(p - q0[:2], nrm), -r0, r0)
        dist = math.hypot(*(p - q0[:2] - lat0 * nrm))
        # the circular ends of the region are drawn as polygons
        round_end = abs(np.dot(p - q0[:2], nrm)) > 0.999 * r0
        if abs(dist - 1) < (0.02 if round_end else 1e-5) or abs(ds) < prec:
            continue
        want = dist < 1 and ds > 0
        kind = c.pick(W.KINDS)
        s = put(c, kind, *p, c.pick([z[2], z[2] + math.pi, c.ang()]))
        ask(c, goal, s, want, "a reference lane goal is fulfilled exactly close to and past its cross-section", along=s0 + ds, lateral=lat, goal_at=s0, distance=dist)
        ask(c, moved, put(c, kind, *(rot(a) @ p + t), s.psi + a), want, "fulfilment does not change when goal and state move together")
        c.count("lane")
        c.count("moved")
        c.situation("lane", k, at_, how, want)
    g = goal.get_plottable_geometry(**at(c))
    m = q0[:2]
    nrm = np.array([-math.sin(q0[2]), math.cos(q0[2])])
    c.true(g.buffer(1e-6).covers(Point(m + r0 * nrm)) and g.buffer(1e-6).covers(Point(m - r0 * nrm)), "the displayed region covers the lane's cross-section at the goal")
    c.close(g.area, 4 * r0 + math.pi, "the displayed region reaches one metre around the cross-section", rtol=0.02)
    c.close(np.array(g.centroid.coords[0]), m, "the displayed region is centred on the goal", atol=1e-5 * (1 + np.abs(m).max()))
    c.count("displayed")
    for sgn in (1, -1):  # whatever is displayed counts
        e = m + (0.9 * np.array([math.cos(q0[2]), math.sin(q0[2])])) * sgn
        c.eq(bool(g.contains(Point(e))), True, "both sides of the cross-section are displayed")


FAMILIES = [("polygon", polygon, 350, 6000), ("pose", pose, 250, 4000), ("lane", lane, 350, 5000)]
