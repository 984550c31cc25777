"""C05: fault attribution follows the lanes."""
import math
from decimal import Decimal as D

import numpy as np
from shapely.affinity import translate
from shapely.geometry import Point, Polygon

from vlib import contact as T
from vlib import roads as R
from vlib import world as W
from vlib.core import wrap
from dg_commons import PlayerName
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario

ID = "C05"
RULE = ("distinct (number of lanes at the impact point, legal or illegal positions and headings of both parties, map or not) classes of "
        "resolved collisions whose fault flags were compared with an analytic lane membership rule")
REQUIRE = {"flags": 700, "at fault": 200, "not at fault": 150, "no lane": 30, "several lanes": 60, "no map": 40, "environment": 80,
           "legal in one lane only": 20, "networks alike": 200}
MIN_SITUATIONS = 25
A, B = PlayerName("A"), PlayerName("B")
LAT, LON, ANG = 0.12, 0.6, 0.03


class Lane:
    def __init__(self, lid, pts, ths, rs):
        self.lid, self.pts, self.ths, self.rs = lid, pts, ths, rs
        self.lanelet = R.lanelet(lid, pts, ths, rs)
        left, right = R.sides(pts, ths, rs)
        self.poly = Polygon(list(left) + list(right[::-1]))
        s, P, H, RR, S = 0.0, [], [], [], []
        # densely sampled centre line, extended straight beyond both ends
        for i in range(len(pts) - 1):
            h = np.linalg.norm(pts[i + 1] - pts[i])
            d = wrap(ths[i + 1] - ths[i])
            for a in np.linspace(0, 1, 60, endpoint=False):
                if abs(d) < 1e-9:
                    q = pts[i] + a * (pts[i + 1] - pts[i])
                else:  # circular arc through both points
                    rad = h / (2 * math.sin(d / 2))
                    t = ths[i]
                    q = pts[i] + rad * np.array([math.sin(t + a * d) - math.sin(t), -math.cos(t + a * d) + math.cos(t)])
                P.append(q)
                H.append(ths[i] + a * d)
                RR.append(rs[i] * (1 - a) + rs[i + 1] * a)
                S.append(s + a * h)
            s += h
        self.P, self.H, self.R, self.S, self.L = np.array(P), np.array(H), np.array(RR), np.array(S), s

    def legal(self, x, y, psi):
        """True/False, None if too close to call"""
        q = np.array([x, y])
        e0 = np.array([math.cos(self.ths[0]), math.sin(self.ths[0])])
        e1 = np.array([math.cos(self.ths[-1]), math.sin(self.ths[-1])])
        i = int(np.argmin(np.linalg.norm(self.P - q, axis=1)))
        s, h, r, o = self.S[i], self.H[i], self.R[i], self.P[i]
        before, after = (q - self.pts[0]) @ e0, (q - self.pts[-1]) @ e1
        if i == 0:
            s, h, r, o = before, self.ths[0], self.rs[0], self.pts[0]
        elif i >= len(self.P) - 30:
            s, h, r, o = self.L + after, self.ths[-1], self.rs[-1], self.pts[-1]
        lat = (q - o) @ np.array([-math.sin(h), math.cos(h)])
        rel = abs(wrap(psi - h))
        tests = [(r - abs(lat), LAT), (s, LON), (self.L - s, LON), (math.pi / 2 - rel, ANG)]
        if any(v < -m for v, m in tests):
            # clearly illegal, provided that the closest point is unambiguous
            return False
        return True if all(v > m for v, m in tests) else None


def lanes(c):
    """Crossing, parallel, opposite, following and diverging lanes around the origin"""
    out = []
    n = c.int(1, 5)
    th0 = c.ang()
    for i in range(n):
        k = c.pick(["parallel", "cross", "arc", "opposite"]) if i else "parallel"
        r = c.u(1.5, 2.5)
        th = {"parallel": th0, "cross": th0 + c.u(0.5, 2.6), "arc": th0 + c.u(-0.5, 0.5), "opposite": th0 + math.pi}[k]
        off = 0.0 if i == 0 else c.u(-5, 5)
        back = c.u(2, 25)
        e, f = np.array([math.cos(th), math.sin(th)]), np.array([-math.sin(th), math.cos(th)])
        start = off * f - back * e
        if k == "arc":
            pts, ths = R.centerline(c, n=c.int(8, 20), ds=2.0, kmax=0.02, start=(*start, th), uniform=True)
        else:
            L, m = back + c.u(3, 25), c.int(3, 15)
            pts = np.array([start + e * L * s for s in np.linspace(0, 1, m)])
            ths = np.full(m, th)
        rs = np.full(len(pts), r)
        if c.chance(0.3):
            rs = np.linspace(r, r * c.u(0.8, 1.2), len(pts))
        out.append(Lane(10 + i, pts, ths, rs))
    return out, th0


def near(c, ls, th0):
    """A pose that is often along one of the lanes"""
    x, y = c.u(-4, 4), c.u(-4, 4)
    if c.chance(0.6):
        l = c.pick(ls)
        i = int(np.argmin(np.linalg.norm(l.P - np.array([x, y]), axis=1)))
        x, y = l.P[i] + c.u(-1.2, 1.2) * np.array([-math.sin(l.H[i]), math.cos(l.H[i])])
        psi = l.H[i] + c.pick([c.u(-0.5, 0.5), c.u(-0.5, 0.5), c.ang(), math.pi + c.u(-0.4, 0.4)])
    else:
        psi = c.ang(2)
    return x, y, psi




def players(c):
    ls, th0 = lanes(c)
    collide(c, ls, th0, c.chance(0.9))


def alike(c):
    """networks whose lanes share names, beginnings and numbers of points with those seen before in the same process"""
    ls, th0 = lanes(c)
    for rnd in range(4):
        if rnd:
            new = []
            for l in ls:
                how = c.pick(["turned", "widened", "narrowed", "stretched", "bent", "same"])
                pts, ths, rs = l.pts, l.ths, l.rs
                o = pts[0]
                if how == "turned":
                    a = c.u(-0.6, 0.6)
                    m = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
                    pts, ths = o + (pts - o) @ m.T, ths + a
                elif how in ("widened", "narrowed"):
                    rs = rs * (c.u(1.2, 2) if how == "widened" else c.u(0.4, 0.8))
                elif how == "stretched":
                    pts = o + (pts - o) * c.u(0.6, 1.6)
                elif how == "bent":
                    pts, ths = R.centerline(c, n=len(pts), ds=max(1.0, l.L / (len(pts) - 1)), kmax=0.02, start=(*o, ths[0]), uniform=True)
                new.append(Lane(l.lid, np.asarray(pts), np.asarray(ths), np.asarray(rs)))
            ls = new
        for _ in range(2):
            collide(c, ls, th0, True)
        c.count("networks alike", rnd > 0)


def collide(c, ls, th0, mapped):
    sc = DgScenario(R.scenario([l.lanelet for l in ls])) if mapped else DgScenario()
    kinds = ["car", "bicycle", "truck", "pedestrian", "car_dyn", "obstacle", "spacecraft", "diff"]
    ka, kb = c.pick(kinds), c.pick(kinds)
    a = W.spec(c, ka, at=near(c, ls, th0))
    b = W.spec(c, kb, at=near(c, ls, th0))
    off = T.place(c, a.build().get_footprint(), b.build().get_footprint())
    b = T.shifted(b, *off)
    for _ in range(4):
        ms = {A: a.build(), B: b.build()}
        try:
            r = resolve_collision(A, B, T.context(ms, scenario=sc))
        except CollisionException:
            return
        if r is not None:
            break
        # separating: draw other velocities at the same place
        a = W.Spec(a.kind, W.state(c, a.kind, a.p, a.g, at=(a.x0.x, a.x0.y, a.x0.psi)), a.g, a.p, a.shape)
        b = W.Spec(b.kind, W.state(c, b.kind, b.p, b.g, at=(b.x0.x, b.x0.y, b.x0.psi)), b.g, b.p, b.shape)
    else:
        return
    c.note(a=(ka, a.x0), b=(kb, b.x0), lanes=[(l.lid, l.pts.tolist(), l.ths[0], l.rs[0]) for l in ls], P=r.impact_point.wkt)
    if sc.scenario is None:
        for p in (A, B):
            c.true(r.players[p].at_fault is False or not r.players[p].at_fault, "without a map nobody is at fault")
        c.count("no map")
        c.situation("no map")
        return
    P = r.impact_point
    at = []
    for l in ls:
        inside, d = l.poly.contains(P), l.poly.exterior.distance(P)
        if d < 0.02:
            return  # too close to call which lanes are at the impact point
        if inside:
            at.append(l)
    c.count("no lane" if not at else "one lane" if len(at) == 1 else "several lanes")
    tags = []
    for p, s in ((A, a), (B, b)):
        ok = [l.legal(s.x0.x, s.x0.y, s.x0.psi) for l in at]
        if any(ok):
            exp = False
        elif None in ok:
            continue
        else:
            exp = True
        c.eq(bool(r.players[p].at_fault), exp, f"fault of {s.kind} at {s.x0.x:.2f},{s.x0.y:.2f},{s.x0.psi:.2f} with {len(at)} lanes at the impact point")
        c.count("flags")
        c.count("at fault" if exp else "not at fault")
        if len(at) > 1 and ok.count(True) == 1 and ok.count(False) >= 1:
            c.count("legal in one lane only")
        tags.append("fault" if exp else "right")
        c.situation(f"{min(len(at), 3)} lanes", "fault" if exp else "right", s.kind)
    c.situation(f"{min(len(at), 3)} lanes", *tags)


def environment(c):
    ls, th0 = lanes(c)
    sc = DgScenario(R.scenario([l.lanelet for l in ls])) if c.chance(0.5) else DgScenario()
    kind = c.pick(W.KINDS)
    a = W.spec(c, kind, at=near(c, ls, th0))
    m = a.build()
    s = W.random_polygon(c, 0.5, 2)
    obs = StaticObstacle(translate(s, *T.place(c, m.get_footprint(), s)))
    try:
        r = resolve_collision_with_environment(A, m, obs, D(1))
    except CollisionException:
        return
    if r is None:
        return
    c.note(a=(kind, a.x0))
    for p, x in r.players.items():
        c.eq(bool(x.at_fault), p == A, "who hits the environment is at fault, the environment is not", party=p)
    c.count("environment")
    c.situation("environment", kind)


FAMILIES = [("alike", alike, 150, 3000), ("players", players, 1500, 30000), ("environment", environment, 300, 5000)]
