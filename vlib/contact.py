"""Random pairs of real models in contact, and what an independent observer says about the contact."""
from __future__ import annotations

import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import rotate, translate
from shapely.geometry import LinearRing, LineString, Point, Polygon

from vlib import world as W
from vlib.core import cross2, rot
from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.seq.sequence import DgSampledSequence


def context(models, obstacles=(), scenario=None, time=D("1.5"), missions=None):
    """A real simulation context whose models are in a given state"""
    players = {}
    for p, m in models.items():
        kind = next(k for k in W.KINDS if isinstance(m.get_state(), W.STATES[k]))
        players[p] = NPAgent(DgSampledSequence[type(W.zero_command(kind))](timestamps=[D(0)], values=[W.zero_command(kind)]))
    return SimContext(
        dg_scenario=scenario or DgScenario(static_obstacles=list(obstacles)), models=models, players=players,
        missions=missions or {}, time=time,
        param=SimParameters(dt=D("0.05"), dt_commands=D("0.05"), max_sim_time=time + 1, sim_time_after_collision=D(1)))


def place(c, fixed: Polygon, moving: Polygon, depth=None, phi=None):
    """Offset for `moving` such that it overlaps `fixed` by about `depth` along a random direction"""
    phi = c.ang() if phi is None else phi
    e = np.array([math.cos(phi), math.sin(phi)])
    o = np.array([fixed.centroid.x - moving.centroid.x, fixed.centroid.y - moving.centroid.y])
    # slide sideways so that not every contact is head on
    side = c.u(-0.8, 0.8) * (math.sqrt(fixed.area) + math.sqrt(moving.area)) / 2
    o = o + side * np.array([-e[1], e[0]])
    ext = lambda s: max(math.hypot(x - s.centroid.x, y - s.centroid.y) for x, y in s.exterior.coords)
    lo, hi = 0.0, ext(fixed) + ext(moving) + abs(side) + 1.0
    if not fixed.intersects(translate(moving, *o)):
        o -= side * np.array([-e[1], e[0]])
    for _ in range(40):
        mid = (lo + hi) / 2
        if fixed.intersects(translate(moving, *(o + mid * e))):
            lo = mid
        else:
            hi = mid
    d = 10 ** c.u(-3, -0.3) if depth is None else depth
    return o + max(0.0, lo - d) * e


def shifted(sp: W.Spec, dx, dy):
    return W.Spec(sp.kind, replace(sp.x0, x=sp.x0.x + dx, y=sp.x0.y + dy), sp.g, sp.p, sp.shape)


def moved(sp: W.Spec, T):
    return W.Spec(sp.kind, W.move(sp.x0, T), sp.g, sp.p, sp.shape)


def pair(c, ka=None, kb=None, depth=None, weights=0.0):
    """Two specs whose footprints overlap"""
    a = W.spec(c, ka)
    b = W.spec(c, kb, at=(0.0, 0.0, c.ang()))
    b = W.Spec(b.kind, replace(b.x0, x=a.x0.x, y=a.x0.y), b.g, b.p, b.shape)
    if weights:
        for s in (a, b):
            if c.chance(weights) and s.kind not in W.DYN:  # from toys to locomotives
                k = 10 ** c.u(-3, 2)
                s.g = replace(s.g, m=s.g.m * k, Iz=s.g.Iz * k)
    off = place(c, a.build().get_footprint(), b.build().get_footprint(), depth)
    return a, shifted(b, *off)


def small_inside(c, host: Polygon):
    """A small shape strictly inside of the host (away from its centre)"""
    for _ in range(200):
        minx, miny, maxx, maxy = host.bounds
        p = Point(c.u(minx, maxx), c.u(miny, maxy))
        r = host.exterior.distance(p)
        if host.contains(p) and r > 0.03:
            s = W.random_polygon(c, 0.2 * r, 0.8 * r, n=c.int(3, 6), convex=True) if r > 0.6 else \
                Polygon([(0.7 * r * math.cos(t), 0.7 * r * math.sin(t)) for t in sorted(c.u(0.1, 1.1) + i * 2 * math.pi / 5 for i in range(5))])
            s = translate(s, p.x, p.y)
            if host.contains(s):
                return s
    return None


def crossings(a: Polygon, b):
    """The points where the boundary of a crosses b's boundary (b itself if it is a curve), None if not finitely many"""
    bb = b.exterior if isinstance(b, Polygon) else b
    x = a.exterior.intersection(bb)
    if x.is_empty:
        return []
    g = getattr(x, "geoms", [x])
    if any(q.geom_type != "Point" for q in g):
        return None
    return [np.array(q.coords[0]) for q in g]


def velocity(m):
    v, w = m.get_velocity(in_model_frame=False)
    return np.array([float(v[0]), float(v[1])]), float(w)


def at_point(v, w, r):
    return np.asarray(v, float) + w * np.array([-r[1], r[0]])


def centre(m):
    s = m.get_state()
    return np.array([s.x, s.y])


def inertia(m):
    g = m.model_geometry
    return float(g.m), float(g.Iz)


def kinetic(m, i, v, w):
    return 0.5 * m * float(np.dot(v, v)), 0.5 * i * w * w


def rv(x):
    """(linear, angular) from a report as floats"""
    return np.array([float(x[0][0]), float(x[0][1])]), float(x[1])
