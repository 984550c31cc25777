"""T01: poses and their action on points and shapes."""
import math

import numpy as np
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon)

from shapely import transform

from vlib import world as W
from vlib.core import se2, wrap
from dg_commons import SE2Transform, apply_SE2_to_shapely_geo
from dg_commons.geo import (PoseState, SE2_apply_T2, SE2_interpolate, get_distance_SE2, norm_between_SE2value, relative_pose, transform_xy)
from dg_commons.sim.collision_utils import get_impact_point_direction

ID = "T01"
RULE = ("distinct (operation, class of the relative rotation, class of the translation, kind of argument) classes in which a result was compared with "
        "the closed form of the rigid motion")
REQUIRE = {"interpolations": 2000, "actions": 2000, "relative": 800, "transforms": 800, "distances": 800, "shapes": 250, "shapes alike": 1000, "directions": 300, "close neighbours": 800}
MIN_SITUATIONS = 60


def angle(c):
    return c.pick([0.0, c.ang(), c.ang(), c.u(-1e-3, 1e-3), math.pi - c.u(0, 1e-3), -math.pi + c.u(0, 1e-3), math.pi / 2, -math.pi / 2, c.u(-1, 1)])


def place(c):
    return c.pick([(0.0, 0.0), (c.u(-5, 5), c.u(-5, 5)), (c.u(-5, 5), 0.0), (c.u(-900, 900), c.u(-900, 900)), (1e-6, -1e-6)])


def cls(th):
    th = abs(wrap(th))
    return "zero" if th == 0 else "small" if th < 2e-3 else "half turn" if th > math.pi - 2e-3 else "turn"


def pose(c, frozen=True):
    x, y = place(c)
    th = angle(c)
    q = se2(x, y, th)
    q.flags.writeable = not frozen
    return q, (x, y, th)


def rigid(c, q, what):
    q = np.asarray(q)
    c.eq(q.shape, (3, 3), f"{what} is a pose")
    c.close(q[:2, :2] @ q[:2, :2].T, np.eye(2), f"{what} has a rotation", atol=1e-9)
    c.true(np.linalg.det(q[:2, :2]) > 0, f"{what} is not a reflection")
    c.close(q[2], [0, 0, 1], f"{what} is homogeneous", atol=1e-12)


def inv(q):
    R, t = q[:2, :2], q[:2, 2]
    out = np.eye(3)
    out[:2, :2] = R.T
    out[:2, 2] = -R.T @ t
    return out


def log(q):
    """(angle, linear part of the twist) of the shortest screw motion"""
    th = math.atan2(q[1, 0], q[0, 0])
    t = q[:2, 2]
    h = th / 2
    k = 1 - h * h / 3 if abs(h) < 1e-5 else h / math.tan(h)
    return th, np.array([k * t[0] + h * t[1], -h * t[0] + k * t[1]])


def exp(th, v):
    a, b = (1 - th * th / 6, th / 2) if abs(th) < 1e-5 else (math.sin(th) / th, (1 - math.cos(th)) / th)
    return se2(a * v[0] - b * v[1], b * v[0] + a * v[1], th)


def interpolation(c):
    for _ in range(20):
        q0, p0 = pose(c)
        q1, p1 = pose(c)
        if c.chance(0.3):  # nearby poses
            q1 = q0 @ se2(c.u(-2, 2), c.u(-2, 2), c.u(-0.5, 0.5))
        rel = inv(q0) @ q1
        th, v = log(rel)
        if abs(th) > math.pi - 1e-2:
            # the motion is not unique here, its ends are
            for al, want in ((0, q0), (1.0, q1)):
                c.close(SE2_interpolate(q0, q1, al), want, "ends of an interpolation", atol=1e-5 * (1 + np.abs(rel).max()))
            continue
        al = c.pick([0, 1, 0.5, c.u(0, 1), c.u(0, 1), c.u(-1, 2), c.u(-6, 6), c.int(-5, 5), np.float64(c.u(0, 1)), "0.25"])
        if al == "0.25":
            from decimal import Decimal as D
            al = D(al)
        tol = 1e-8 * (1 + np.abs(q0).max() + np.abs(q1).max()) + (1e-7 * np.abs(rel).max() if abs(th) < 2e-3 else 0)
        tol *= max(1, abs(float(al)))
        got = SE2_interpolate(q0, q1, al)
        rigid(c, got, "an interpolated pose")
        c.close(got, q0 @ exp(float(al) * th, float(al) * v), "interpolation along the screw motion", atol=tol, alpha=al, q0=q0, q1=q1)
        if 0 <= float(al) <= 1:
            c.close(SE2_interpolate(q1, q0, 1 - float(al)), got, "interpolating from the other end", atol=2 * tol, alpha=al)
        g, _ = pose(c)
        c.close(SE2_interpolate(g @ q0, g @ q1, al), g @ got, "interpolation does not depend on the frame", atol=10 * tol + 1e-8 * np.abs(g).max())
        mid = SE2_interpolate(q0, q1, 0.5)
        c.close(SE2_interpolate(q0, mid, float(al)), SE2_interpolate(q0, q1, float(al) / 2), "interpolating half of the way", atol=4 * tol)
        c.count("interpolations", 5)
        c.situation("interpolate", cls(th), type(al).__name__, 0 <= float(al) <= 1)


def relative(c):
    for _ in range(20):
        q0, p0 = pose(c)
        q1, p1 = pose(c)
        tol = 1e-9 * (1 + np.abs(q0).max() + np.abs(q1).max())
        r = relative_pose(q0, q1)
        rigid(c, r, "a relative pose")
        c.close(r, inv(q0) @ q1, "relative pose", atol=tol)
        d = np.array(p1[:2]) - np.array(p0[:2])
        co, si = math.cos(p0[2]), math.sin(p0[2])
        c.close(r[:2, 2], [co * d[0] + si * d[1], -si * d[0] + co * d[1]], "position in the frame of the base", atol=tol)
        c.close(q0 @ r, q1, "base and relative pose compose", atol=tol)
        c.close(relative_pose(q1, q0) @ r, np.eye(3), "relative poses of each other are inverse", atol=tol)
        c.close(relative_pose(q0, q0), np.eye(3), "relative to itself", atol=tol)
        q2, _ = pose(c)
        c.close(r @ relative_pose(q1, q2), relative_pose(q0, q2), "chain of relative poses", atol=10 * tol + 1e-8 * np.abs(q2).max())
        c.count("relative", 5)
        c.situation("relative", cls(p1[2] - p0[2]))
        # distances
        th, v = log(inv(q0) @ q1)
        n = math.hypot(*d)
        c.close(norm_between_SE2value(q0, q1), n, "distance between positions", atol=1e-9 * (1 + n))
        c.close(norm_between_SE2value(q0, q1, ord=1), abs(d[0]) + abs(d[1]), "1-norm", atol=1e-9 * (1 + n))
        c.close(norm_between_SE2value(q0, q1, ord=np.inf), max(abs(d)), "max-norm", atol=1e-9 * (1 + n))
        if abs(th) < math.pi - 1e-2:
            got = get_distance_SE2(q0, q1)
            c.close(got, np.linalg.norm(v), "length of the screw motion", atol=1e-6 * (1 + n), q0=q0, q1=q1)
            c.true(got >= n * (1 - 1e-6) - 1e-9, "no motion is shorter than the straight line", got=got, straight=n)
            c.close(get_distance_SE2(q1, q0), got, "distance back", atol=1e-6 * (1 + n))
            g, _ = pose(c)
            c.close(get_distance_SE2(g @ q0, g @ q1), got, "distance in another frame", atol=1e-6 * (1 + n + np.abs(g).max() ** 0.5))
        c.count("distances", 4)
        # neighbours: the distance is not rounded away, however close they are
        e = 10 ** c.u(-9, -1)
        f = c.pick([0.0, 1.0, c.u(0, 2)])
        near = se2(*[a + b for a, b in zip(p0, (0, 0, e * c.sign() * f))])
        near[:2, 2] += [e * math.cos(5 * th), e * math.sin(5 * th)]
        noise = 4e-15 * (1 + np.abs(q0).max())
        got = get_distance_SE2(q0, near)
        c.close(got, e, "distance of close neighbours", atol=noise + 1e-6 * e + 0.6 * e * min(1, e * f) * f, distance=e, q0=q0, q1=near)
        c.close(norm_between_SE2value(q0, near), e, "distance between close positions", atol=noise + 1e-9 * e)
        c.count("close neighbours")
        c.situation("neighbours", int(math.log10(e)), f == 0)


def action(c):
    for _ in range(20):
        q, (x, y, th) = pose(c)
        co, si = math.cos(th), math.sin(th)
        n = c.int(1, 6)
        pts = [(c.u(-9, 9), c.u(-9, 9)) if c.chance(0.8) else place(c) for _ in range(n)]
        want = np.array([[co * a - si * b + x, si * a + co * b + y] for a, b in pts])
        tol = 1e-9 * (1 + abs(want).max() + abs(x) + abs(y))
        kind = c.pick(["list", "tuple", "array", "gen"])
        arg = {"list": lambda: [tuple(p) for p in pts], "tuple": lambda: tuple(map(tuple, pts)), "array": lambda: np.array(pts),
               "gen": lambda: [list(p) for p in pts]}[kind]()
        before = repr(arg)
        got = transform_xy(q, arg)
        c.eq(repr(arg), before, "the points are not modified")
        c.true(isinstance(got, tuple) and all(len(p) == 2 for p in got), "pairs of coordinates", got=got)
        c.close(np.array(got, dtype=float), want, "transform_xy", atol=tol)
        for p, w in zip(pts, want):
            a = {"list": list, "tuple": tuple, "array": np.array, "gen": tuple}[kind](p)
            one = SE2_apply_T2(q, a)
            c.eq(np.shape(one), (2,), "a point")
            c.close(one, w, "SE2_apply_T2", atol=tol)
        q2, _ = pose(c)
        t2 = 1e-8 * (1 + abs(want).max() + np.abs(q2).max() + np.abs(q).max())
        c.close(transform_xy(q2, transform_xy(q, arg)), np.array(transform_xy(q2 @ q, arg), dtype=float), "transforming twice", atol=t2)
        c.close(transform_xy(relative_pose(q, np.eye(3)), got), pts, "transforming back", atol=t2)
        c.count("actions", 2 + n)
        c.situation("points", kind, cls(th), n)


def shape(c):
    k = c.index % 10
    P = lambda: (c.u(-6, 6), c.u(-6, 6))
    poly = W.random_polygon(c, 1, 4)
    if k == 0:
        s = Point(P())
    elif k == 1:
        s = LineString([P() for _ in range(c.int(2, 5))])
    elif k == 2:
        s = LinearRing(poly.exterior.coords)
    elif k == 3:
        s = poly
    elif k == 4:
        ctr = np.array(poly.representative_point().coords[0])
        r = poly.exterior.distance(Point(ctr)) * 0.5
        s = Polygon(poly.exterior, [Point(ctr).buffer(r, quad_segs=c.int(1, 4)).exterior.coords])
    elif k == 5:
        s = MultiPolygon([poly, Polygon([(x + 9, y) for x, y in poly.exterior.coords])])
    elif k == 6:
        s = MultiPoint([P() for _ in range(c.int(1, 4))])
    elif k == 7:
        s = MultiLineString([[P(), P()], [P(), P(), P()]])
    elif k == 8:
        s = GeometryCollection([Point(P()), poly, LineString([P(), P()])])
    else:
        s = Polygon(list(poly.exterior.coords)[::-1])
    return s


def points(s):
    from shapely import get_coordinates
    return get_coordinates(s)


def shapes(c):
    s = shape(c)
    wkb = s.wkb
    q, (x, y, th) = pose(c)
    got = apply_SE2_to_shapely_geo(s, q)
    c.eq(s.wkb, wkb, "the shape is not modified")
    c.eq(got.geom_type, s.geom_type, "type of the shape")
    co, si = math.cos(th), math.sin(th)
    p = points(s)
    want = np.stack([co * p[:, 0] - si * p[:, 1] + x, si * p[:, 0] + co * p[:, 1] + y], 1)
    tol = 1e-9 * (1 + np.abs(want).max())
    c.close(points(got), want, "vertices of the transformed shape", atol=tol)
    c.close([got.area, got.length], [s.area, s.length], "area and length are kept", rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max()))
    if s.geom_type == "Polygon":
        c.eq(len(got.interiors), len(s.interiors), "holes")
        c.eq(got.exterior.is_ccw, s.exterior.is_ccw, "orientation of the outline")
    back = apply_SE2_to_shapely_geo(got, relative_pose(q, np.eye(3)))
    c.close(points(back), p, "transforming back", atol=1e-8 * (1 + np.abs(want).max()))
    m = apply_SE2_to_shapely_geo(s, SE2Transform([x, y], th).as_SE2())
    c.close(points(m), want, "the same with an SE2Transform", atol=tol)
    c.count("shapes")
    c.situation("shape", s.geom_type, cls(th))
    # other shapes alike - the same kind and number of points, the same bounds, area and length - and nearly the same shapes, moved by the same pose
    x0, y0, x1, y1 = s.bounds
    e = 10 ** c.u(-7, -2)
    for how, (f, g) in {"flipped": (lambda a: x0 + x1 - a, lambda b: b), "turned over": (lambda a: a, lambda b: y0 + y1 - b), "half a turn": (lambda a: x0 + x1 - a, lambda b: y0 + y1 - b),
                        "aside": (lambda a: a + e, lambda b: b), "again": (lambda a: a, lambda b: b)}.items():
        o = transform(s, lambda xy: np.stack([f(xy[:, 0]), g(xy[:, 1])], 1))
        p = points(o)
        want = np.stack([co * p[:, 0] - si * p[:, 1] + x, si * p[:, 0] + co * p[:, 1] + y], 1)
        c.close(points(apply_SE2_to_shapely_geo(o, q)), want, "vertices of a shape much like the one moved before", atol=min(tol, e / 4), how=how, pose=q)
        c.count("shapes alike")


def transforms(c):
    for _ in range(10):
        x, y = place(c)
        th = angle(c) + c.pick([0, 0, 2 * math.pi, -4 * math.pi])
        arg = c.pick([list, tuple, np.array])([x, y])
        t = SE2Transform(arg, c.pick([float, np.float64])(th))
        c.close(t.as_SE2(), se2(x, y, th), "matrix of an SE2Transform", atol=1e-9 * (1 + abs(th)))
        if not isinstance(arg, tuple):
            arg[0] += 1.0
            c.close(t.p, [x, y], "an SE2Transform owns its position", atol=0)
        c.eq(t.theta, float(th), "angle as given")
        q = se2(x, y, th)
        u = SE2Transform.from_SE2(q)
        c.close(u.p, [x, y], "position from a matrix", atol=1e-12)
        c.true(isinstance(u.theta, float) and -math.pi - 1e-12 <= u.theta <= math.pi + 1e-12, "principal angle from a matrix", theta=u.theta)
        c.close(wrap(u.theta - th), 0, "angle from a matrix", atol=1e-9 * (1 + abs(th)))
        c.close(u.as_SE2(), q, "matrix to transform and back", atol=1e-9 * (1 + abs(th)))
        v = SE2Transform.from_PoseState(PoseState(x=x, y=y, psi=th))
        c.close([*v.p, v.theta], [x, y, th], "from a pose state", atol=0)
        st = W.state(c, "bicycle", W.parameters(c, "bicycle"))
        w = SE2Transform.from_PoseState(st)
        c.close([*w.p, w.theta], [st.x, st.y, st.psi], "from the state of a vehicle", atol=0)
        i = SE2Transform.identity()
        c.close(i.as_SE2(), np.eye(3), "identity", atol=0)
        i.p[0] += 3
        c.close(SE2Transform.identity().p, [0, 0], "every identity is its own", atol=0)
        c.count("transforms", 6)
        c.situation("transform", cls(th), type(arg).__name__, abs(th) > 4)


def directions(c):
    """Direction of an impact as seen from a vehicle"""
    for _ in range(10):
        st = W.state(c, "bicycle", W.parameters(c, "bicycle"))
        rho, phi = c.u(0.2, 6), c.ang()
        p = Point(st.x + rho * math.cos(st.psi + phi), st.y + rho * math.sin(st.psi + phi))
        got = get_impact_point_direction(st, p)
        c.close(wrap(got - phi), 0, "direction of the impact point relative to the heading", atol=1e-7, state=st, point=p)
        c.count("directions")
        c.situation("direction", int(phi // (math.pi / 4)))


FAMILIES = [("interpolation", interpolation, 60, 3000), ("relative", relative, 60, 3000), ("action", action, 60, 3000),
            ("shapes", shapes, 400, 8000), ("transforms", transforms, 60, 2000), ("directions", directions, 60, 1000)]
