"""K02: pure pursuit steers towards its lookahead point on the path."""
import math

import numpy as np
from geometry import SE2_from_xytheta, angle_from_SE2, translation_from_SE2

from vlib import roads as R
from vlib import world as W
from vlib.core import rot, se2, wrap
from vlib.curve import Curve
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam

ID = "K02"
RULE = ("distinct (shape of the path, where on the path, lookahead at which limit, goal within range or clamped, side of the goal, parameters) classes in "
        "which goal point and steering angle were compared with a dense search on an independently reconstructed path")
REQUIRE = {"goal points": 600, "goal at lookahead": 300, "goal clamped": 12, "steered left": 150, "steered right": 150, "aligned": 60, "mirrored": 150, "moved": 150,
           "lookahead at minimum": 100, "lookahead at maximum": 60, "lookahead between": 100, "beyond the end": 20, "used trackers compared": 300, "turned away": 100, "slight changes of speed": 8}
MIN_SITUATIONS = 60


def param(c):
    if c.chance(0.3):
        return PurePursuitParam()
    lo = c.u(1.5, 6)
    return PurePursuitParam(look_ahead_minmax=(lo, lo + c.u(1, 20)), k_lookahead=c.u(0.3, 2), min_distance=c.u(0.2, lo), length=c.u(1, 5), lr=c.u(0.3, 3))


def copy(p):
    return PurePursuitParam(look_ahead_minmax=tuple(p.look_ahead_minmax), k_lookahead=p.k_lookahead, min_distance=p.min_distance,
                            max_extra_distance=p.max_extra_distance, length=p.length, lr=p.lr)


def lookahead(p, v):
    return min(max(p.k_lookahead * v, p.look_ahead_minmax[0]), p.look_ahead_minmax[1])


def tracker(p, lane, pose, s, v):
    pp = PurePursuit(copy(p))
    pp.update_path(lane)
    pp.update_pose(SE2_from_xytheta(list(map(float, pose))), float(s))
    pp.update_speed(v)
    return pp


def situation(c, shape=None, sharp=False):
    shape = shape or c.pick(["straight", "gentle", "curved"])
    pts, ths = R.centerline(c, n=c.int(8, 30), ds=c.u(1, 4), kmax={"straight": 0, "gentle": 0.01, "curved": 0.04}[shape], straight=shape == "straight")
    rs = R.widths(c, len(pts))
    cv = Curve(pts, ths, rs)
    p = param(c)
    v = c.pick([0.0, c.u(0, 5), c.u(0, 15), c.u(5, 40), -1.0])
    s = c.u(0, cv.L)
    q = cv.at(cv.beta(s))
    off, dth = c.u(-2, 2), c.u(-0.6, 0.6)
    if sharp and c.chance(0.25):  # heading anywhere
        dth = c.u(-3.1, 3.1)
        c.count("turned away")
    pose = np.array([q[0] - off * math.sin(q[2]), q[1] + off * math.cos(q[2]), q[2] + dth])
    return shape, (pts, ths, rs), cv, p, v, s, pose


def goal(c):
    shape, (pts, ths, rs), cv, p, v, s, pose = situation(c, sharp=True)
    pp = tracker(p, R.dg_lane(pts, ths, rs), pose, s, v)
    L = lookahead(p, v)
    kw = dict(pose=pose.tolist(), along=s, speed=v, parameters=p, length=cv.L)
    lo, hi = s + p.min_distance, s + p.min_distance + L
    ss = np.linspace(lo, hi, 400)
    d = np.array([math.hypot(*(cv.at(cv.beta(x))[:2] - pose[:2])) for x in ss])
    monotone = (np.diff(d) > 0).all()
    got_s, got = pp.find_goal_point()
    x, y = translation_from_SE2(got)
    at = cv.at(cv.beta(got_s))
    c.close((x, y), at[:2], "the goal point lies on the path at the distance reported", atol=1e-5, **kw)
    c.close(wrap(angle_from_SE2(got) - at[2]), 0, "the goal is aligned with the path", atol=1e-5, **kw)
    c.le(lo - 1e-3, got_s, "the goal is at least the minimum distance ahead", **kw)
    c.le(got_s, hi + 1e-3, "the goal is no more than minimum distance plus lookahead ahead", **kw)
    c.count("goal points")
    if monotone:
        best = np.abs(d - L).min()
        dist = math.hypot(x - pose[0], y - pose[1])
        step = (hi - lo) / 399
        if d[0] <= L <= d[-1]:
            c.close(dist, L, "the goal is at lookahead distance", atol=2e-3, **kw)
            c.count("goal at lookahead")
            what = "at lookahead"
        else:
            c.close(got_s, lo if L < d[0] else hi, "the goal comes as close to lookahead distance as the range allows", atol=2e-2, **kw)
            c.count("goal clamped")
            what = "clamped low" if L < d[0] else "clamped high"
        c.le(abs(dist - L), best + step, "no better goal", **kw)
    else:
        what = "not monotone"
    if got_s > cv.L:
        c.count("beyond the end")
    lim = "minimum" if L == p.look_ahead_minmax[0] else "maximum" if L == p.look_ahead_minmax[1] else "between"
    c.count(f"lookahead at {lim}" if lim != "between" else "lookahead between")
    # steering
    steer = pp.get_desired_steering()
    rear = pose[:2] - p.lr * np.array([math.cos(pose[2]), math.sin(pose[2])])
    al = math.atan2(y - rear[1], x - rear[0]) - pose[2]
    c.close(steer, math.atan(p.length * 2 * math.sin(al) / L), "steering angle of the arc towards the goal", atol=1e-6, **kw)
    if abs(math.sin(al)) > 1e-6:
        c.eq(steer > 0, math.sin(al) > 0, "steers to the side of the goal", alpha=al, **kw)
        c.count("steered left" if steer > 0 else "steered right")
    c.true(pp.get_desired_steering() == steer, "asking again changes nothing")
    c.situation(shape, what, lim, "left" if steer > 0 else "right", "beyond" if got_s > cv.L else "within", "default" if p == PurePursuitParam() else "custom")


def mirrored(c):
    shape, (pts, ths, rs), cv, p, v, s, pose = situation(c)
    a = tracker(p, R.dg_lane(pts, ths, rs), pose, s, v)
    m = pts * [1, -1]
    b = tracker(p, R.dg_lane(m, -ths, rs), pose * [1, -1, -1], s, v)
    x, y = a.get_desired_steering(), b.get_desired_steering()
    c.close(x, -y, "mirrored situations are steered mirrored", atol=1e-4, pose=pose.tolist(), along=s)
    c.count("mirrored")
    # elsewhere and differently oriented
    t, rx, ry = c.ang(), c.u(-100, 100), c.u(-100, 100)
    pts2 = pts @ rot(t).T + [rx, ry]
    pose2 = np.array([*(rot(t) @ pose[:2] + [rx, ry]), pose[2] + t])
    e = tracker(p, R.dg_lane(pts2, ths + t, rs), pose2, s, v)
    c.close(e.get_desired_steering(), x, "steering does not depend on the world frame", atol=1e-4, pose=pose.tolist(), along=s)
    c.close(e.find_goal_point()[0], a.find_goal_point()[0], "the goal does not depend on the world frame", atol=5e-3)
    c.count("moved")
    c.situation("metamorphic", shape, "left" if x > 0 else "right")


def aligned(c):
    pts, ths = R.centerline(c, n=c.int(3, 20), ds=c.u(1, 5), straight=True)
    rs = R.widths(c, len(pts))
    cv = Curve(pts, ths, rs)
    p, v, s = param(c), c.u(0, 30), c.u(0, cv.L)
    q = cv.at(cv.beta(s))
    pp = tracker(p, R.dg_lane(pts, ths, rs), q, s, v)
    c.close(pp.get_desired_steering(), 0, "no steering when aligned with a straight path", atol=1e-6)
    # beside the path, parallel to it: steers back
    off = c.sign() * c.u(0.05, 3)
    b = tracker(p, R.dg_lane(pts, ths, rs), [q[0] - off * math.sin(q[2]), q[1] + off * math.cos(q[2]), q[2]], s, v).get_desired_steering()
    c.true(b * off < 0, "steers back to the path from beside it", offset=off, steering=b)
    # turned away on the path: steers back
    t = c.sign() * c.u(0.02, 1.0)
    b = tracker(p, R.dg_lane(pts, ths, rs), [q[0], q[1], q[2] + t], s, v).get_desired_steering()
    # the rear axle is off to the other side of the path, the lookahead point lies straight ahead
    c.true(b * t < 0, "steers back when turned away", angle=t, steering=b)
    c.count("aligned")
    c.situation("aligned", "left" if off > 0 else "right", "left" if t > 0 else "right")


def set_up(c):
    """parameters of a vehicle, use before there is anything to follow, replacing path, pose and speed"""
    kind = c.pick(W.KIN)
    g = W.geometry(c, kind)
    pp = PurePursuit.from_model_geometry(g)
    c.close(pp.param.length, g.lf + g.lr, "wheelbase of the vehicle", atol=1e-12)
    c.close(pp.param.lr, g.lr, "rear axle of the vehicle", atol=1e-12)
    c.raises(pp.get_desired_steering, "no steering before there is a path and a pose", exc=RuntimeError)
    shape, (pts, ths, rs), cv, p, v, s, pose = situation(c)
    shape2, (pts2, ths2, rs2), cv2, p2, v2, s2, pose2 = situation(c)
    used = PurePursuit(copy(p))
    used.update_path(R.dg_lane(pts2, ths2, rs2))
    used.update_pose(SE2_from_xytheta(list(map(float, pose2))), float(s2))
    used.update_speed(v2)
    used.get_desired_steering()
    order = c.rng.sample([lambda: used.update_path(R.dg_lane(pts, ths, rs)), lambda: used.update_pose(SE2_from_xytheta(list(map(float, pose))), float(s)), lambda: used.update_speed(v)], 3)
    for f in order:
        f()
    c.close(used.get_desired_steering(), tracker(p, R.dg_lane(pts, ths, rs), pose, s, v).get_desired_steering(), "no memory of earlier paths, poses and speeds", atol=1e-12)
    c.situation("set up", kind)


def kept(c):
    """a tracker in use for a while steers as a new one would: on whatever path, wherever the vehicle got to, whatever happened before"""
    roads = [situation(c) for _ in range(2)]
    lanes = [R.dg_lane(*r[1]) for r in roads]
    p = roads[0][3]
    i, v, s = 0, roads[0][4], roads[0][5]
    off, dth = c.u(-2, 2), c.u(-0.6, 0.6)
    pp = PurePursuit(copy(p))
    for step in range(8):
        how = c.pick(["beside", "turned", "beside and turned", "ahead", "speed", "path", "same"]) if step else "first"
        if "beside" in how:
            off = c.u(-4, 4)
        if "turned" in how:
            dth = c.u(-0.8, 0.8)
        if how == "ahead":
            s = min(s + c.u(0.01, 5), roads[i][2].L)
        if how == "speed":
            v = c.u(0, 30) if c.chance(0.4) else v + c.sign() * 10 ** c.u(-3, 0)  # also hardly any faster or slower
            c.count("slight changes of speed", p.look_ahead_minmax[0] < p.k_lookahead * v < p.look_ahead_minmax[1])
        if how == "path":
            i = 1 - i
            s = min(s, roads[i][2].L)
        q = roads[i][2].at(roads[i][2].beta(s))
        pose = np.array([q[0] - off * math.sin(q[2]), q[1] + off * math.cos(q[2]), q[2] + dth])
        if how in ("first", "path"):
            pp.update_path(lanes[i])
        if how not in ("speed", "same"):
            pp.update_pose(SE2_from_xytheta(list(map(float, pose))), float(s))
        if how in ("first", "speed"):
            pp.update_speed(v)
        new = tracker(p, lanes[i], pose, s, v)
        kw = dict(step=step, how=how, pose=pose, along=s, speed=v)
        if c.chance(0.5):
            c.close(pp.find_goal_point()[0], new.find_goal_point()[0], "a tracker in use heads for the point a new one heads for", atol=1e-9, **kw)
        c.close(pp.get_desired_steering(), new.get_desired_steering(), "a tracker in use steers as a new one does", atol=1e-9, **kw)
        c.count("used trackers compared")
        c.situation("kept", how)


FAMILIES = [("kept", kept, 90, 1300), ("goal", goal, 900, 12000), ("mirrored", mirrored, 220, 3000), ("aligned", aligned, 100, 1500), ("set up", set_up, 60, 600)]
