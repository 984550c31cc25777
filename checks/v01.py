"""V01: field-of-view sensing sees what is visible and nothing else."""
from vlib import triangulate  # before anything of dg_commons
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from commonroad_dc import pycrcc
from frozendict import frozendict
from shapely.geometry import LinearRing, LineString, Point, Polygon

from vlib import world as W
from vlib.core import rot, wrap
from dg_commons import SE2Transform
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import FovObsFilter
from dg_commons.sim.simulator_structures import PlayerObservations, SimObservations

ID = "V01"
RULE = ("distinct (sensor, opening, kind of obstacles, place of a probe relative to the field of view) classes in which points and players were "
        "classified by an exact ray/segment visibility oracle and the real sensors and filters had to agree")
REQUIRE = {"fields of view": 150, "visible probes": 5000, "hidden probes": 600, "out of range": 2000, "out of opening": 800,
           "seen players": 200, "unseen players": 150, "observations": 200, "other scenario": 20, "hidden by a vehicle centred out of range": 10, "hidden by a long vehicle": 15,
           "used filters compared": 200, "views changed": 60}
MIN_SITUATIONS = 60
CPU_LIMIT = 300


# ------------------------------------------------------------------ oracle
class Sight:
    """visibility from a point among polygons, in exact terms of their edges"""

    def __init__(self, o, polys):
        self.o = np.asarray(o, float)
        self.polys = polys
        segs = []
        for p in polys:
            q = np.array(p.exterior.coords)
            segs.append(np.hstack([q[:-1], q[1:]]))
        self.segs = np.vstack(segs) - np.tile(self.o, 2) if segs else np.zeros((0, 4))
        self.corner = np.arctan2(self.segs[:, 1], self.segs[:, 0]) if len(self.segs) else np.zeros(0)

    def depth(self, ang):
        """distance to the first obstacle in each direction"""
        ang = np.atleast_1d(ang)
        if not len(self.segs):
            return np.full(len(ang), np.inf)
        d = np.stack([np.cos(ang), np.sin(ang)], 1)[:, None, :]
        a, b = self.segs[None, :, :2], self.segs[None, :, 2:]
        e = b - a
        den = d[..., 0] * e[..., 1] - d[..., 1] * e[..., 0]
        with np.errstate(all="ignore"):
            t = (a[..., 0] * e[..., 1] - a[..., 1] * e[..., 0]) / den
            s = (a[..., 0] * d[..., 1] - a[..., 1] * d[..., 0]) / den
        ok = (np.abs(den) > 1e-14) & (t > 0) & (s >= 0) & (s <= 1)
        return np.where(ok, t, np.inf).min(axis=1)

    def window(self, phi, w):
        angles = list(np.linspace(phi - w, phi + w, 15))
        for k in self.corner:
            r = wrap(k - phi)
            if abs(r) < w:
                angles += [phi + r - 1e-7, phi + r + 1e-7]
        return self.depth(np.array(angles))

    def free(self, phi, w, rho):
        """the wedge of directions phi-w..phi+w is free of obstacles up to distance rho (at least)"""
        far = rho / math.cos(w)
        wedge = Polygon([self.o, self.o + far * np.array([math.cos(phi - w), math.sin(phi - w)]), self.o + far * np.array([math.cos(phi + w), math.sin(phi + w)])])
        return all(not wedge.intersects(p) for p in self.polys)

    def blocked(self, phi, w, rho):
        """in every direction phi-w..phi+w there is an obstacle closer than rho"""
        return self.window(phi, w).max() < rho


def inside(ring, p):
    x, y = ring[:-1, 0], ring[:-1, 1]
    x2, y2 = ring[1:, 0], ring[1:, 1]
    m = (y > p[1]) != (y2 > p[1])
    with np.errstate(all="ignore"):
        return bool(np.count_nonzero(m & (p[0] < (x2 - x) * (p[1] - y) / (y2 - y) + x)) % 2)


def spacing(sensor_range, fov):
    """the widest angle between two neighbouring rays"""
    res = math.atan(1 / sensor_range)
    return fov / max(1, int(fov / res))


# ------------------------------------------------------------------ obstacles
def apart(poly, others, o, gap=0.3):
    return poly.distance(Point(o)) > 0.5 and all(poly.distance(q) > gap for q in others)


def body(c, o, reach):
    """(shapely polygon, native collision shapes)"""
    at = np.asarray(o) + c.u(1, reach) * np.array([math.cos(a := c.ang()), math.sin(a)])
    k = c.pick(["box", "triangle", "wall"])
    if k == "triangle":
        v = at + np.array([[c.u(0.3, 5) * math.cos(b), c.u(0.3, 5) * math.sin(b)] for b in np.array([0, 2.1, 4.2]) + c.ang()])
        return k, Polygon(v), pycrcc.Triangle(*v.ravel().tolist())
    w, h = (c.u(0.2, 4), c.u(0.2, 4)) if k == "box" else (c.u(4, 15), c.u(0.05, 0.2))
    th = c.ang()
    v = at + np.array([[-w, -h], [w, -h], [w, h], [-w, h]]) @ rot(th).T
    return k, Polygon(v), pycrcc.RectOBB(w, h, th, float(at[0]), float(at[1]))


def sensor_of(c, o, th, kind=None):
    rng = c.pick([c.u(4, 40), 20.0, c.u(1.5, 4)])
    if c.chance(0.05):
        rng = c.u(100, 350)
    opening = c.pick(["all around", "all around", "half", "narrow", "wide"])
    fov = {"all around": 2 * math.pi, "half": math.pi, "narrow": c.u(0.3, 1.5), "wide": c.u(4, 6.0)}[opening]
    return opening, VisRangeSensor(pose=SE2Transform(o, th), range=rng, field_of_view=fov)


def probe(c, sight, s, th, w, p, ring, kinds, opening):
    """classifies a point and compares; returns what it was"""
    v = p - sight.o
    rho, phi = math.hypot(*v), math.atan2(v[1], v[0])
    rel = abs(wrap(phi - th))
    omni = s.is_omnidirectional()
    kw = dict(p=p, rho=rho, phi=phi, sensor=(s.pose.p, th, s.range, s.field_of_view))
    got = inside(ring, p)
    if rho > s.range + 1e-6:
        c.true(not got, "nothing is seen beyond the range", **kw)
        c.count("out of range")
        return "beyond"
    if not omni and rel > s.field_of_view / 2 + 1e-6:
        c.true(not got, "nothing is seen outside the opening angle", **kw)
        c.count("out of opening")
        return "outside"
    if rho > 1e-2 and sight.blocked(phi, w, rho - 1e-6):
        c.true(not got, "nothing is seen behind an obstacle", **kw)
        c.count("hidden probes")
        return "behind"
    if rho < s.range * math.cos(w) - 1e-6 and (omni or rel < s.field_of_view / 2 - 1e-6) and rho > 1e-3 and sight.free(phi, w, rho + 1e-6):
        c.true(got, "a point within range and opening with a free line of sight is seen", **kw)
        c.count("visible probes")
        return "free"
    return None


def field_of_view(c):
    o, th = np.array([c.u(-30, 30), c.u(-30, 30)]), c.ang(2)
    opening, s = sensor_of(c, o, th)
    polys, shapes, kinds = [], [], set()
    for _ in range(c.pick([0, 1, 2, 4, 8])):
        k, p, sh = body(c, o, 1.2 * s.range)
        if apart(p, polys, o):
            polys.append(p)
            shapes.append(sh)
            kinds.add(k)
    sight = Sight(o, polys)
    fov = s.fov_as_polygon(shapes)
    c.true(isinstance(fov, Polygon), "a field of view is a polygon")
    ring = np.array(fov.exterior.coords)
    c.note(o=o, th=th, range=s.range, fov=s.field_of_view, polys=[p.wkt for p in polys])
    w = 1.02 * spacing(s.range, s.field_of_view)
    for _ in range(60):
        how = c.pick(["any", "any", "edge of range", "edge of opening", "around obstacle"])
        if how == "around obstacle" and polys:
            q = c.pick(polys)
            b = q.bounds
            p = np.array([c.u(b[0] - 2, b[2] + 2), c.u(b[1] - 2, b[3] + 2)])
        else:
            rho = s.range * (c.u(0.9, 1.1) if how == "edge of range" else math.sqrt(c.u(0, 1.2)))
            phi = th + (c.sign() * (s.field_of_view / 2 + c.u(-0.2, 0.2)) if how == "edge of opening" else c.ang())
            p = o + rho * np.array([math.cos(phi), math.sin(phi)])
        r = probe(c, sight, s, th, w, p, ring, kinds, opening)
        if r:
            c.situation("probe", opening, how, r, "+".join(sorted(kinds)) or "empty")
    # the boundary itself
    d = np.hypot(*(ring - o).T)
    c.le(d.max(), s.range + 1e-9, "the field of view stays within the range")
    if not polys and s.is_omnidirectional():
        c.close(fov.area, math.pi * s.range ** 2, "a free field of view is a disc", rtol=max(0.02, 1.2 * w * w))
    c.count("fields of view")


def full_range(c):
    o = np.array([c.u(-30, 30), c.u(-30, 30)])
    r = c.u(0.5, 40)
    s = FullRangeSensor(pose=SE2Transform(o, c.ang()), range=r)
    k, p, sh = body(c, o, r)
    fov = s.fov_as_polygon([sh])
    for _ in range(20):
        q = o + r * c.u(0.8, 1.2) * np.array([math.cos(a := c.ang()), math.sin(a)])
        d = math.hypot(*(q - o))
        if d < 0.99 * r or d > r + 1e-9:
            c.eq(bool(fov.contains(Point(q))), d < r, "a full range sensor sees everything within its range")
            c.count("visible probes" if d < r else "out of range")
    c.situation("full range")


# ------------------------------------------------------------------ filter
def actor(c, others, at=None, kinds=W.KINDS):
    for _ in range(30):
        kind = c.pick(kinds)
        x, y, th = at or (c.u(-25, 25), c.u(-25, 25), c.ang())
        m = W.spec(c, kind, at=(x, y, th)).build()
        f = m.get_footprint()
        if isinstance(f, Polygon) and all(f.distance(q) > 0.4 for q in others):
            return m, f
    return None


def static(c, others):
    for _ in range(30):
        at = np.array([c.u(-30, 30), c.u(-30, 30)])
        k = c.pick(["box", "concave", "line", "ring", "bar"])
        if k == "box":
            s = Polygon(at + np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]]) * [c.u(0.3, 4), c.u(0.3, 4)] @ rot(c.ang()).T)
        elif k == "bar":
            s = Polygon(at + np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]]) * [c.u(5, 12), c.u(0.1, 0.3)] @ rot(c.ang()).T)
        elif k == "concave":
            s = Polygon(at + np.array([[0, 0], [6, 0], [6, 2], [2, 2], [2, 6], [0, 6]]) @ rot(c.ang()).T)
        elif k == "line":
            s = LineString(at + np.array([[0, 0], [c.u(3, 9), c.u(-2, 2)], [c.u(9, 15), c.u(-6, 6)]]) @ rot(c.ang()).T)
        else:
            s = LinearRing(at + np.array([[0, 0], [c.u(2, 6), 0], [c.u(2, 6), c.u(2, 6)], [0, c.u(2, 6)]]) @ rot(c.ang()).T)
        if all(s.distance(q) > 0.5 for q in others):
            return k, s
    return None


def solid(s):
    if isinstance(s, Polygon):
        return [s]
    p = list(s.coords)
    return [LineString(x).buffer(0.01) for x in zip(p[:-1], p[1:])]


def margins(sight_all, own, sight_others, P, s, th, w, o):
    """(surely seen, surely unseen)"""
    omni = s.is_omnidirectional()
    q = np.array([P.exterior.interpolate(t, normalized=True).coords[0] for t in np.linspace(0, 1, 121)] + list(P.exterior.coords))
    v = q - o
    rho, phi = np.hypot(*v.T), np.arctan2(v[:, 1], v[:, 0])
    unseen = True
    for r, f in zip(rho, phi):
        # a ray may pass anywhere close by, and the field of view is cut straight from ray to ray
        if r > s.range + 1e-6 or (not omni and abs(wrap(f - th)) > s.field_of_view / 2 + 0.02):
            continue
        if sight_others.blocked(f, w + 0.02, r - 0.05):
            continue
        unseen = False
        break
    seen = False
    # all rays within some window meet this player first
    for f in phi:
        if not omni and abs(wrap(f - th)) > s.field_of_view / 2 - w:
            continue
        a = np.linspace(f - w, f + w, 9)
        da, do = own.window(f, w), sight_others.window(f, w)
        if da.max() < s.range - 1e-3 and (own.depth(a) < sight_others.depth(a) - 0.05).all() and da.max() < do.min() - 0.05:
            seen = True
            break
    return seen, unseen


def judged(c, got, pov, n, P, others, s, th, w, o, **kw):
    seen, unseen = margins(None, Sight(o, [P]), Sight(o, others), P, s, th, w, o)
    kw.update(pov=pov, player=n, o=o, th=th, range=s.range, fov=s.field_of_view, occupancy=P.wkt, others=[x.wkt for x in others])
    if seen:
        c.true(n in got.players, "a player in plain sight is seen", **kw)
        c.count("seen players")
    if unseen:
        c.true(n not in got.players, "a player out of sight is not seen", **kw)
        c.count("unseen players")
    return seen, unseen


def long_vehicles(c):
    """the body, not its centre, counts: vehicles reaching into the view from far away, from behind or from outside the opening block it"""
    o, th = np.array([c.u(-30, 30), c.u(-30, 30)]), c.ang()
    opening, s = sensor_of(c, np.zeros(2), 0.0)
    s = replace(s, range=c.u(9, 30))
    phi = th + (c.u(-0.5, 0.5) * s.field_of_view if s.is_omnidirectional() else c.u(-0.3, 0.3) * s.field_of_view)
    d = np.array([math.cos(phi), math.sin(phi)])
    n = c.sign() * np.array([-d[1], d[0]])
    r1 = c.u(2.5, 0.5 * s.range)
    r2 = c.u(r1 + 2.5, 0.97 * s.range)
    hw = c.u(0.3, 0.7)
    size = math.hypot(hw, hw)
    cover = (size + 0.6) * (r1 + 1.5) / (r2 - size) + 0.5 + (r1 + 1.5) * 2.5 * spacing(s.range, s.field_of_view)

    def box(at, l, w, a):
        return Polygon(np.asarray(at) + np.array([[-l, -w], [l, -w], [l, w], [-l, w]]) / 2 @ rot(a).T)

    # one end of the truck just covers what is behind it, the rest reaches away across (or slanted)
    slant = c.u(-0.4, 0.4)
    u = rot(slant) @ n
    length = c.pick([2 * cover + 1, c.u(8, 20), c.u(20, 90), 2 * math.sqrt(max(s.range ** 2 - r1 ** 2, 1)) + c.u(1, 12)])
    length = max(length, 2 * cover)
    end = o + r1 * d - cover * u
    truck = box(end + length / 2 * u, length, c.u(0.6, 2.5), math.atan2(u[1], u[0]))
    hidden = box(o + r2 * d, 2 * hw, 2 * hw, c.ang())
    aside = box(o + c.u(3, s.range) * -d, 1.5, 1.0, c.ang())
    me = box(o, 0.5, 0.5, th)
    feet = {"me": me, "truck": truck, "hidden": hidden, "aside": aside}
    if any(a.distance(b) < 0.3 for i, a in enumerate(feet.values()) for b in list(feet.values())[:i]):
        return
    as_static = c.pick([None, None, None, "truck"])
    scen = DgScenario(static_obstacles=[StaticObstacle(truck)] if as_static else [])
    st = W.spec(c, "bicycle", at=(0, 0, 0)).build().get_state()
    names = [k for k in c.rng.sample(sorted(feet), 4) if k != as_static]
    full = SimObservations(players=frozendict({k: PlayerObservations(state=replace(st, x=float(feet[k].centroid.x), y=float(feet[k].centroid.y), psi=th), occupancy=feet[k]) for k in names}), time=D(0))
    o = np.array([full.players["me"].state.x, full.players["me"].state.y])
    got = FovObsFilter(s).sense(scen, full, "me")
    w = 1.02 * spacing(s.range, s.field_of_view)
    far = truck.centroid.distance(Point(o)) > s.range
    for k in names:
        if k != "me":
            seen, unseen = judged(c, got, "me", k, feet[k], [f for q, f in feet.items() if q not in (k, "me")], s, th, w, o)
            if k == "hidden" and unseen:
                c.count("hidden by a vehicle centred out of range" if far else "hidden by a long vehicle")
            c.situation("long", opening, k, "seen" if seen else "unseen" if unseen else "unclear", far, as_static)


def observations(c):
    opening, s = sensor_of(c, np.zeros(2), 0.0)
    s = replace(s, range=c.pick([s.range, 30.0]))
    if c.chance(0.1):
        s = FullRangeSensor(range=s.range)
    flt = FovObsFilter(s)
    rounds = c.int(1, 3)
    scen = None
    for rnd in range(rounds):
        # another scenario, or the same one with the players elsewhere
        if scen is None or c.chance(0.35):
            if scen is not None:
                c.count("other scenario")
            shapes, kinds = [], []
            for _ in range(c.pick([0, 1, 3, 5])):
                k = static(c, shapes)
                if k:
                    shapes.append(k[1])
                    kinds.append(k[0])
            scen = DgScenario(static_obstacles=[StaticObstacle(x) for x in shapes])
        models = {}
        feet = list(shapes)
        for i in range(c.int(2, 6)):
            a = actor(c, feet)
            if a:
                models[f"P{i}"] = a
                feet.append(a[1])
        if len(models) < 2:
            return
        full = SimObservations(players=frozendict({n: PlayerObservations(state=m.get_state(), occupancy=f) for n, (m, f) in models.items()}), time=D(rnd) / 10)
        before = [(n, W.vals(p.state).copy(), p.occupancy.wkb) for n, p in full.players.items()]
        for pov in c.rng.sample(sorted(models), c.int(1, 2)):
            st = full.players[pov].state
            o, th = np.array([st.x, st.y]), st.psi
            got = flt.sense(scen, full, pov)
            c.true(isinstance(got, SimObservations), "a filtered observation is an observation")
            c.true(pov in got.players, "the observer sees itself")
            c.eq(got.time, full.time, "the time stamp is kept")
            c.true(set(got.players) <= set(full.players), "nobody is made up")
            for n, p in got.players.items():
                q = full.players[n]
                c.true(np.array_equal(W.vals(p.state), W.vals(q.state)) and type(p.state) is type(q.state) and p.occupancy.equals(q.occupancy), "players seen are described as they are", player=n)
            c.eq([(n, p.occupancy.wkb) for n, p in full.players.items()], [(n, w) for n, _, w in before], "the full observation is left untouched")
            c.true(all(np.array_equal(W.vals(full.players[n].state), v) for n, v, _ in before), "states of the full observation are left untouched")
            c.count("observations")
            stat = [q for x in shapes for q in solid(x)]
            w = 1.02 * spacing(s.range, s.field_of_view)
            if any(x.distance(Point(o)) < 0.3 for x in feet if x is not models[pov][1]):
                continue
            for n, (m, P) in models.items():
                if n == pov:
                    continue
                if isinstance(s, FullRangeSensor):
                    d = P.distance(Point(o))
                    if d < 0.98 * s.range or d > s.range + 1e-6:
                        c.eq(n in got.players, d < s.range, "a full range sensor sees whoever is within its range", player=n, distance=d)
                        c.count("seen players" if d < s.range else "unseen players")
                    continue
                others = stat + [f for k, (_, f) in models.items() if k not in (n, pov)]
                seen, unseen = judged(c, got, pov, n, P, others, s, th, w, o, round=rnd)
                far = P.distance(Point(o)) > s.range
                c.situation("player", opening, "round", min(rnd, 1), "seen" if seen else "unseen" if unseen else "unclear", "far" if far else "near", "static" if shapes else "no static")
    c.situation("kinds", *sorted(set(kinds)))


def kept(c):
    """a filter in use for a while sees what a new one would: it remembers nothing of who stood where and how"""
    opening, s = sensor_of(c, np.zeros(2), 0.0)
    s = replace(s, range=c.u(15, 30))
    flt = FovObsFilter(s)
    o = np.array([c.u(-30, 30), c.u(-30, 30)])
    st = W.spec(c, "bicycle", at=(0, 0, 0)).build().get_state()
    who = {"me": [o[0], o[1], c.ang(), 1.0, 0.6]}
    for i in range(c.int(2, 5)):
        a = who["me"][2] + c.u(-0.5, 0.5) * s.field_of_view
        d = np.array([math.cos(a), math.sin(a)])
        r = c.u(6, 0.5 * s.range)
        at, beyond = o + r * d, o + c.u(r + 4, s.range) * d
        who[f"W{i}"] = [at[0], at[1], c.ang(), c.u(4, 9), c.u(0.3, 1)]
        who[f"B{i}"] = [beyond[0], beyond[1], c.ang(), c.u(1, 3), c.u(0.5, 1.5)]

    def scene():
        w = lambda v: Polygon(np.array(v[:2]) + np.array([[-v[3], -v[4]], [v[3], -v[4]], [v[3], v[4]], [-v[3], v[4]]]) / 2 @ rot(v[2]).T)
        return SimObservations(players=frozendict({k: PlayerObservations(state=replace(st, x=float(v[0]), y=float(v[1]), psi=float(v[2])), occupancy=w(v)) for k, v in who.items()}), time=t)

    scen = DgScenario()
    last, how = None, "first"
    for rnd in range(5):
        t = D(rnd) / 10
        if rnd:
            how = c.pick(["turns", "turns", "turns", "mirrored", "moves", "grows", "leaves", "trade places", "observer turns", "other observer", "wall", "wall", "wall"])
            k = c.pick([x for x in who if x != "me"])
            if how == "turns":
                for x in who:
                    if x[0] == "W":
                        who[x][2] += c.sign() * c.u(0.7, 2.4)
            elif how == "mirrored":
                for x in who:
                    if x[0] == "W":
                        who[x][2] *= -1
            elif how == "moves":
                who[k][0] += c.u(-4, 4)
                who[k][1] += c.u(-4, 4)
            elif how == "grows":
                who[k][3] *= c.u(0.4, 2)
            elif how == "leaves" and len(who) > 2:
                del who[k]
            elif how == "trade places" and len(who) > 2:
                q = c.pick([x for x in who if x not in ("me", k)])
                who[k], who[q] = who[q], who[k]
            elif how == "observer turns":
                who["me"][2] += c.ang()
            elif how == "wall":
                at = o + c.u(4, 12) * np.array([math.cos(b := c.ang()), math.sin(b)])
                w = Polygon(at + np.array([[-5, -0.1], [5, -0.1], [5, 0.1], [-5, 0.1]]) @ rot(c.ang()).T)
                w = [StaticObstacle(w)]
                scen = None  # the next one may well take its place in memory
                scen = DgScenario(static_obstacles=w)
        pov = c.pick(sorted(who)) if how == "other observer" else "me"
        full = scene()
        got = set(flt.sense(scen, full, pov).players)
        new = set(FovObsFilter(replace(s)).sense(scen, full, pov).players)
        c.eq(got, new, "a filter in use sees what a new one sees", how=how, round=rnd, observer=pov, scene={k: list(map(float, v)) for k, v in who.items()}, sensor=(s.range, s.field_of_view))
        c.count("used filters compared")
        if last is not None and got != last:
            c.count("views changed")
        last = got
        c.situation("kept", opening, how, len(got) > 1)


FAMILIES = [("kept", kept, 100, 1500), ("long vehicles", long_vehicles, 90, 1500), ("field of view", field_of_view, 260, 2500), ("full range", full_range, 60, 600), ("observations", observations, 220, 2200)]
