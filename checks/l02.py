"""L02: the lane pose describes position and heading relative to the lane truthfully."""
import math

import numpy as np

from vlib import roads as R
from vlib.core import rot, se2, wrap
from vlib.curve import Curve
from dg_commons import SE2Transform

ID = "L02"
RULE = ("distinct (lane shape, place along, side, heading, accuracy asked for) classes in which lane poses returned by real lanes were used to "
        "reconstruct the pose and compared with an independent closest-point search")
REQUIRE = {"poses": 1500, "records": 3000, "closest": 1200, "inside": 800, "moved": 400}
MIN_SITUATIONS = 60


def the_lane(c):
    k = c.pick(["straight", "gentle", "gentle", "left", "right"])
    n = c.int(4, 25)
    if k == "straight":
        pts, ths = R.centerline(c, n=n, straight=True)
    else:
        ds = c.u(0.7, 4)
        total = c.u(0.2, 1.3)  # at most a quarter turn or so
        kap = min(total / (n * ds * 1.4), 0.08)
        pts, ths = R.centerline(c, n=n, ds=ds, kmax=kap)
        if k in ("left", "right"):
            x, y, th = c.u(-30, 30), c.u(-30, 30), c.ang()
            s = kap if k == "left" else -kap
            P, T = [(x, y)], [th]
            for _ in range(n - 1):
                x += (math.sin(th + s * ds) - math.sin(th)) / s
                y += (-math.cos(th + s * ds) + math.cos(th)) / s
                th += s * ds
                P.append((x, y))
                T.append(th)
            pts, ths = np.array(P), np.array(T)
    rs = R.widths(c, n)
    return k, pts, ths, rs


def near(c, ref, k):
    """A pose near the lane: (place, beta of its foot, lateral, heading relative)"""
    n = ref.n
    place = c.pick(["before", "along", "along", "along", "after", "start", "end"])
    b = {"before": c.u(-6, -0.05), "along": c.u(0.05, n - 1.05), "after": n - 1 + c.u(0.05, 6), "start": c.u(0.001, 0.5), "end": n - 1 - c.u(0.001, 0.5)}[place]
    r = ref.radius(b)
    side = c.pick(["centre", "in left", "in right", "left", "right"])
    lat = {"centre": 0.0, "in left": c.u(0.05, 0.97) * r, "in right": -c.u(0.05, 0.97) * r, "left": r * c.u(1.03, 2), "right": -r * c.u(1.03, 2)}[side]
    rel = c.pick([0.0, c.u(-0.5, 0.5), c.ang(0.98), c.sign() * c.u(1.4, 1.54), c.sign() * c.u(1.6, 1.8), c.sign() * c.u(3.0, 3.14)])
    q = ref.at(b)
    p = q[:2] + lat * np.array([-math.sin(q[2]), math.cos(q[2])])
    return place, side, b, lat, rel, p, q[2] + rel


def record(c, d, r, L, **kw):
    """mutual consistency of the fields"""
    lat, s = d.lateral, d.along_lane
    c.close([d.lateral_left, d.lateral_right], [r, -r], "borders are half a width away from the centre", atol=1e-9, **kw)
    c.close([d.distance_from_left, d.distance_from_right, d.distance_from_center], [abs(r - lat), abs(r + lat), abs(lat)], "distances to the borders and the centre", atol=1e-9, **kw)
    if abs(abs(lat) - r) > 1e-9:
        c.eq((bool(d.lateral_inside), bool(d.outside_left), bool(d.outside_right)), (abs(lat) < r, lat > r, lat < -r), "exactly one of inside, left and right", lateral=lat, r=r, **kw)
    if min(abs(s), abs(s - L)) > 1e-9:
        c.eq((bool(d.along_inside), bool(d.along_before), bool(d.along_after)), (0 < s < L, s < 0, s > L), "exactly one of along, before and after", s=s, L=L, **kw)
    c.eq(bool(d.inside), bool(d.lateral_inside) and bool(d.along_inside), "inside iff inside laterally and along", **kw)
    if abs(abs(d.relative_heading) - math.pi / 2) > 1e-9:
        c.eq(bool(d.correct_direction), abs(wrap(d.relative_heading)) < math.pi / 2, "correct direction iff within a right angle", rel=d.relative_heading, **kw)
    c.count("records")


def poses(c):
    k, pts, ths, rs = the_lane(c)
    ref = Curve(pts, ths, rs)
    lane = R.dg_lane(pts, ths, rs)
    c.note(pts=pts, ths=ths, rs=rs)
    for _ in range(5):
        place, side, b, lat, rel, p, th = near(c, ref, k)
        tol = c.pick([None, None, 1e-8, 1e-6])
        kw = {} if tol is None else {"tol": tol}
        how = c.pick(["transform", "matrix"])
        d = lane.lane_pose_from_SE2Transform(SE2Transform(p, th), **kw) if how == "transform" else lane.lane_pose_from_SE2_generic(se2(*p, th), **kw)
        # how far the search may stop from the foot point, along the lane
        step = max(ref.lengths + [1.0])
        slack = (2e-3 if tol is None else max(3 * tol, 3e-7)) * (1 + max(abs(b), ref.n)) * step
        kw = dict(p=p, th=th, place=place, side=side, tol=tol)
        anchor = d.center_point
        a = np.asarray(anchor.p, float)
        ah = anchor.theta
        # reconstruction
        e = a + d.lateral * np.array([-math.sin(ah), math.cos(ah)])
        c.close(e, p, "the lateral offset leads from the centre point to the position", atol=slack, **kw)
        c.close(wrap(ah + d.relative_heading - th), 0, "the relative heading leads from the lane's heading to the pose's", atol=1e-8 + 0.2 * slack, **kw)
        # the anchor is the closest point, and where the record says it is
        c.le(math.hypot(*(a - p)), math.hypot(lat, slack) + 1e-7, "no closer centreline point than the anchor", **kw)
        c.close(d.along_lane, ref.s(b), "distance along the lane", atol=slack, **kw)
        x = ref.at(ref.beta(d.along_lane))
        c.close(a, x[:2], "the centre point is the one at the distance along", atol=1e-5 * (1 + ref.L), **kw)
        c.close(d.lateral, lat, "lateral offset, positive to the left", atol=slack, **kw)
        c.close(wrap(d.relative_heading - rel), 0, "relative heading", atol=0.2 * slack + 1e-7, **kw)
        record(c, d, ref.radius(ref.beta(d.along_lane)), ref.L, **kw)
        c.count("poses")
        c.situation("pose", k, place, side, "default" if tol is None else tol)
        # closest point searches
        bb, q = lane.find_along_lane_closest_point(p)
        c.close(bb, b, "progress of the closest point", atol=3e-4 * (1 + max(abs(b), ref.n)), **kw)
        c.close(q[:2, 2], ref.at(bb)[:2], "the closest point is the one at its progress", atol=1e-6 * (1 + ref.L), **kw)
        rb, dist = ref.closest(p, b - 3, b + 3)
        c.le(math.hypot(*(q[:2, 2] - p)), math.hypot(dist, 3e-4 * (1 + ref.n) * step) + 1e-6, "no closer point on the lane", **kw)
        c.close(lane.along_lane_from_T2value(p), ref.s(b), "distance along of a position", atol=2e-3 * (1 + max(abs(b), ref.n)) * step, **kw)
        # the linear variant follows the chords: sagitta and change of foot point are bounded by the curvature
        i = min(max(int(b), 0), ref.n - 2)
        sag = ref.lengths[i] * abs(ref.tw[i][1]) / 8
        if 0.2 < b < ref.n - 1.2:
            fb, fq = lane.find_along_lane_closest_point_fast(p)
            dd = math.hypot(*(fq[:2, 2] - p))
            c.le(dd, math.hypot(abs(lat) + 1.5 * sag, 3e-4 * (1 + ref.n) * step) + 1e-4, "no closer point on the chords", **kw)
            turn = max(abs(f) for _, f in ref.tw[max(0, i - 1): i + 2])
            c.close(lane.along_lane_from_T2value(p, fast=True), ref.s(b), "distance along of a position, linear variant",
                    atol=2e-3 * (1 + ref.n) * step + (abs(lat) + sag) * turn * 1.5 + 1.5 * sag, **kw)
        c.count("closest")
        if place != "start" and place != "end":
            r = ref.radius(b)
            if abs(abs(lat) - r) > 1.5 * sag + 0.01 and (0.05 < b < ref.n - 1.05 or b < -0.04 or b > ref.n - 0.96):
                c.eq(bool(lane.is_inside_from_T2value(p)), abs(lat) < r and 0 <= b <= ref.n - 1, "a position is inside the lane iff within its width and its length", **kw)
                c.count("inside")


def records(c):
    """records from lane coordinates directly"""
    k, pts, ths, rs = the_lane(c)
    ref, lane = Curve(pts, ths, rs), R.dg_lane(pts, ths, rs)
    for _ in range(12):
        s = c.pick([c.u(-5, ref.L + 5), c.u(0, ref.L), c.u(0, ref.L), 0.0, ref.s(c.int(0, ref.n - 1)) + 1e-6])
        r = ref.radius(ref.beta(s))
        lat = c.pick([c.u(-2, 2) * r, 0.0, r * (1 + 1e-6), r * (1 - 1e-6), -r * (1 + 1e-6), -r * (1 - 1e-6)])
        rel = c.pick([c.ang(0.99), 0.0, math.pi / 2 - 1e-6, math.pi / 2 + 1e-6, -math.pi / 2 + 1e-6, -math.pi / 2 - 1e-6])
        d = lane.lane_pose(along_lane=s, relative_heading=rel, lateral=lat)
        c.close([d.along_lane, d.relative_heading, d.lateral], [s, rel, lat], "the record holds what it describes", atol=0, rtol=0)
        record(c, d, r, ref.L, s_=s)
        x = ref.at(ref.beta(s))
        c.close(d.center_point.p, x[:2], "centre point at the distance along", atol=1e-6 * (1 + ref.L + np.abs(pts).max()))
        c.close(wrap(d.center_point.theta - x[2]), 0, "heading of the lane at the distance along", atol=1e-6)
        if s == 0.0:
            c.true(bool(d.along_inside) and not d.along_before, "the lane begins at zero")
    c.situation("record", k)


def moved(c):
    """the description does not depend on the world frame, and is mirrored with the lane"""
    k, pts, ths, rs = the_lane(c)
    ref, lane = Curve(pts, ths, rs), R.dg_lane(pts, ths, rs)
    a, t = c.ang(), np.array([c.u(-100, 100), c.u(-100, 100)])
    other = R.dg_lane(pts @ rot(a).T + t, ths + a, rs)
    mirror = R.dg_lane(pts * [1, -1], -ths, rs)
    for _ in range(3):
        place, side, b, lat, rel, p, th = near(c, ref, k)
        d0 = lane.lane_pose_from_SE2Transform(SE2Transform(p, th), tol=1e-8)
        d1 = other.lane_pose_from_SE2Transform(SE2Transform(rot(a) @ p + t, th + a), tol=1e-8)
        d2 = mirror.lane_pose_from_SE2Transform(SE2Transform(p * [1, -1], -th), tol=1e-8)
        tol = 1e-4 * (1 + ref.n)
        c.close([d1.lateral, d1.along_lane, wrap(d1.relative_heading - d0.relative_heading)], [d0.lateral, d0.along_lane, 0], "same description in another frame", atol=tol)
        c.close([-d2.lateral, d2.along_lane, wrap(d2.relative_heading + d0.relative_heading)], [d0.lateral, d0.along_lane, 0], "mirrored description of the mirror image", atol=tol)
        c.count("moved")
    c.situation("moved", k)


FAMILIES = [("poses", poses, 350, 5000), ("records", records, 250, 4000), ("moved", moved, 160, 2500)]
