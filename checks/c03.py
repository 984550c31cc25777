"""C03: contact geometry is well formed and never breaks the simulation."""
import math
from collections import Counter
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import rotate, scale, translate
from shapely.geometry import LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon, box

from vlib import contact as T
from vlib import simkit as K
from vlib import world as W
from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.model_structures import ModelParameters
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator

ID = "C03"
RULE = ("distinct (shapes, topological relation of the footprints at the contact, outcome) classes of contacts that were resolved by the "
        "real code and judged by an independent geometry oracle")
REQUIRE = {"simple crossings": 500, "reports judged": 500, "degenerate contacts": 2000, "separating judged": 150, "touching": 150,
           "containments": 80}
MIN_SITUATIONS = 60
A, B = PlayerName("A"), PlayerName("B")


def hull_dist(s, P):
    return s.convex_hull.distance(Point(*P))


def judge(c, r, fa, fb, cross):
    """Geometry of a report about first party fa and second party fb"""
    P, n = np.array(r.impact_point.coords[0], float), np.array(r.impact_normal, float)
    c.true(n.shape == (2,) and np.all(np.isfinite(n)) and np.all(np.isfinite(P)), "normal and impact point are finite", n=n, P=P)
    c.close(np.linalg.norm(n), 1.0, "the normal has unit length", atol=1e-9)
    out = n @ (P - np.array(fa.centroid.coords[0]))
    c.true(out >= -1e-9, "the normal points out of the first party", n=n, P=P, first=fa.wkt)
    inter = fa.intersection(fb)
    single = inter.geom_type in ("Polygon", "LineString")
    if fa.contains(fb) or fb.contains(fa):
        cross = None  # boundaries that touch do not cross
    if single:
        c.le(hull_dist(fa, P), 1e-6, "the impact point lies on the first party", P=P, first=fa.wkt)
        c.le(hull_dist(fb, P), 1e-6, "the impact point lies on the second party", P=P, second=fb.wkt)
    if cross is not None and len(cross) == 2 and single and np.linalg.norm(cross[1] - cross[0]) > 1e-5:
        p, q = cross
        c.close(P, (p + q) / 2, "the impact point is the midpoint between the crossing points", atol=1e-6, first=fa.wkt, second=fb.wkt)
        c.close(n @ (q - p) / np.linalg.norm(q - p), 0.0, "the normal is perpendicular to the line joining the crossing points",
                atol=1e-6, first=fa.wkt, second=fb.wkt)
        c.count("simple crossings")
    c.count("reports judged")


def rel_speed(va, vb, fa, cross):
    """Approach speed at a simple crossing, independent of the repository"""
    p, q = cross
    m = (p + q) / 2
    n = np.array([-(q - p)[1], (q - p)[0]]) / np.linalg.norm(q - p)
    s = (m - np.array(fa.centroid.coords[0])) @ n
    if abs(s) < 1e-6:
        return None
    return float((va(m) - vb(m)) @ n) * (1 if s > 0 else -1)


def field(m):
    v, w = T.velocity(m)
    o = T.centre(m)
    return lambda x: T.at_point(v, w, x - o)


def pairs(c):
    ka, kb = W.KINDS[c.index % len(W.KINDS)], W.KINDS[(c.index // len(W.KINDS)) % len(W.KINDS)]
    a, b = T.pair(c, ka, kb)
    ma, mb = a.build(), b.build()
    fa, fb = ma.get_footprint(), mb.get_footprint()
    va, vb = field(ma), field(mb)
    X = T.crossings(fa, fb)
    c.note(a=(ka, a.x0), b=(kb, b.x0))
    try:
        r = resolve_collision(A, B, T.context({A: ma, B: mb}))
    except CollisionException:
        c.true(X is None or len(X) != 2 or np.linalg.norm(X[0] - X[1]) < 1e-6 or fa.intersection(fb).geom_type != "Polygon",
               "two bodies crossing at two boundary points have a contact geometry", first=fa.wkt, second=fb.wkt)
        c.situation("pair", ka, kb, "unresolved")
        return
    simple = X is not None and len(X) == 2 and np.linalg.norm(X[0] - X[1]) > 1e-5 and fa.intersection(fb).geom_type == "Polygon"
    if r is None:
        if simple:
            s = rel_speed(va, vb, fa, X)
            if s is not None:
                c.le(s, 1e-6, "a contact left without report is one of separating bodies", first=fa.wkt, second=fb.wkt)
                c.count("separating judged")
        return
    if simple:
        s = rel_speed(va, vb, fa, X)
        if s is not None:
            c.le(-1e-6, s, "no report for separating bodies", first=fa.wkt, second=fb.wkt)
    judge(c, r, fa, fb, X)
    c.situation("pair", ka, kb, "report")


# ------------------------------------------------------------------ degenerate contacts in running simulations
G = 0.25


def shapes(c):
    """A shape with dyadic coordinates around the origin"""
    k = c.pick(["box", "box", "square", "diamond", "L", "U", "triangle", "plus"])
    i = lambda lo, hi: c.int(lo, hi) * 2 * G
    if k == "box":
        a, b = i(1, 4), i(1, 4)
        return k, box(-a, -b, a, b)
    if k == "square":
        return k, box(-1, -1, 1, 1)
    if k == "diamond":
        a = i(1, 3)
        return k, Polygon([(a, 0), (0, a), (-a, 0), (0, -a)])
    if k == "triangle":
        a = i(1, 3)
        return k, Polygon([(-a, -a), (2 * a, -a), (-a, 2 * a)])
    if k == "L":
        return k, Polygon([(-1, -1), (1, -1), (1, 0), (0, 0), (0, 1), (-1, 1)])
    if k == "U":
        return k, Polygon([(-1.5, -1), (1.5, -1), (1.5, 1), (0.5, 1), (0.5, 0), (-0.5, 0), (-0.5, 1), (-1.5, 1)])
    return k, Polygon([(-0.5, -1.5), (0.5, -1.5), (0.5, -0.5), (1.5, -0.5), (1.5, 0.5), (0.5, 0.5), (0.5, 1.5), (-0.5, 1.5),
                       (-0.5, 0.5), (-1.5, 0.5), (-1.5, -0.5), (-0.5, -0.5)])


def obstacle(c):
    k = c.pick(["poly", "poly", "segment", "polyline", "ring", "multipoly", "multiline", "bighole"])
    at = (c.int(-12, 12) * G, c.int(-12, 12) * G)
    if k == "poly":
        s = shapes(c)[1]
    elif k == "segment":
        s = LineString([(0, 0), c.pick([(2, 0), (0, 3), (1, 1), (-2, 1), (8, 0), (0, -8)])])
    elif k == "polyline":
        s = LineString([(-3, 0), (0, 0), (0, 2), (3, 2)])
    elif k == "ring":
        a = c.int(1, 8) * G
        s = LinearRing([(-a, -a), (a, -a), (a, a), (-a, a)])
    elif k == "multipoly":
        s = MultiPolygon([box(-2, -1, -1, 1), box(1, -1, 2, 1)])
    elif k == "multiline":
        s = MultiLineString([[(-2, -1), (2, -1)], [(-2, 1), (2, 1)]])
    else:
        s = Polygon([(-4, -4), (4, -4), (4, 4), (-4, 4)], [[(-2, -2), (2, -2), (2, 2), (-2, 2)]])
    return k, translate(s, *at)


def relation(a, b):
    if a.equals(b):
        return "identical"
    if a.touches(b):
        return "touching " + a.intersection(b).geom_type
    if a.contains(b):
        return "first contains second" + (" concentric" if a.centroid.distance(b.centroid) < 1e-12 else "")
    if b.contains(a):
        return "second contains first"
    g = a.intersection(b)
    X = T.crossings(a, b)
    return "overlap " + g.geom_type + " " + ("along edges" if X is None else str(len(X)) + " crossings")


def degenerate(c):
    dt = D("0.25")
    n = c.int(2, 5)
    real = c.chance(0.25)
    names = [PlayerName(f"T{i}") for i in range(n)]
    models, kinds = {}, {}
    h = 0.25
    for p in names:
        x, y = c.int(-10, 10) * G, c.int(-10, 10) * G
        if c.chance(0.25) and models:  # coincident with another one
            o = models[c.pick(list(models))].get_state()
            x, y = o.x, o.y
        if real and c.chance(0.6):
            kind = c.pick(["car", "truck", "pedestrian", "diff", "spacecraft", "obstacle"])
            sp = W.spec(c, kind, at=(x, y, c.int(-2, 2) * math.pi / 2))
            if kind != "diff":
                sp.x0 = replace(sp.x0, vx=float(c.int(-4, 4)))
            models[p], kinds[p] = sp.build(), kind
            continue
        k, s = shapes(c)
        if c.chance(0.25) and models and any(kinds[q] in kinds.values() and isinstance(models[q], K.ToyModel) for q in models):
            q = c.pick([q for q in models if isinstance(models[q], K.ToyModel)])
            k, s = kinds[q], models[q].shape
        v = [c.pick([0.0, 0.0, c.int(-4, 4) * 1.0]) for _ in range(2)]
        models[p] = K.ToyModel(K.ToyState(x, y, 0.0, v[0], v[1], 0.0), s,
                               ObstacleGeometry(m=c.u(1, 20), Iz=c.u(1, 20), e=c.u(0.1, 0.9)), ModelParameters((-50, 50), (-20, 20)))
        kinds[p] = k
    obst = [obstacle(c) for _ in range(c.int(0, 3))]
    tr = K.Trace()
    players = {}
    for p in names:
        K.record_model(models[p], p, tr)
        z = K.ToyCommands(0.0) if isinstance(models[p], K.ToyModel) else W.zero_command(kinds[p])
        players[p] = K.RecAgent(tr, p, lambda ag, ob, z=z: z)
    steps = c.int(3, 8)
    ctx = SimContext(dg_scenario=DgScenario(static_obstacles=[StaticObstacle(s) for _, s in obst]), models=models, players=players,
                     param=SimParameters(dt=dt, dt_commands=dt, max_sim_time=dt * steps, sim_time_after_collision=D(100)))
    tr.ctx = ctx
    c.note(bodies={p: (kinds[p], m.get_state(), m.get_footprint().wkt[:120]) for p, m in models.items()},
           obstacles=[s.wkt for _, s in obst])
    Simulator().run(ctx)  # must complete
    ups = {p: {e.t: e for e in tr.of("update", p)} for p in names}
    c.eq(len(ups[names[0]]), steps + 1, "the simulation reached its end")
    end = max(ups[names[0]])
    for r in ctx.collision_reports:
        t0 = r.at_time - dt
        who = list(r.players)
        c.true(r.at_time <= end, "report of a later time")
        own = [p for p in who if p in ups]
        fa = ups[own[0]][t0].c[1]
        if len(own) == 2:
            fb = ups[own[1]][t0].c[1]
            c.true(not fa.touches(fb), "bodies that merely touch yield no report", first=fa.wkt, second=fb.wkt)
            if r.impact_point is not None:
                judge(c, r, fa, fb, T.crossings(fa, fb))
        elif r.impact_point is not None:
            n, P = np.array(r.impact_normal, float), np.array(r.impact_point.coords[0])
            c.close(np.linalg.norm(n), 1.0, "the normal has unit length", atol=1e-9)
            c.true(n @ (P - np.array(fa.centroid.coords[0])) >= -1e-9, "the normal points out of the first party")
            hit = [o for _, o in obst if fa.intersects(o) and not fa.touches(o)]
            c.true(hit, "bodies that merely touch an obstacle yield no report", first=fa.wkt)
            if all(fa.intersection(o).geom_type in ("Polygon", "LineString") for o in hit):
                c.true(any(hull_dist(o, P) < 1e-6 for o in hit), "the impact point lies on the obstacle", P=P)
                c.le(hull_dist(fa, P), 1e-6, "the impact point lies on the body", P=P)
            c.count("reports judged")
    reported = {(r.at_time, frozenset(p for p in r.players if p in ups)) for r in ctx.collision_reports}
    for t in sorted(ups[names[0]])[:-1]:
        f = {p: ups[p][t].c[1] for p in names}
        for i, p in enumerate(names):
            for q in names[i + 1:]:
                if f[p].intersects(f[q]):
                    rel = relation(f[p], f[q])
                    c.count("degenerate contacts")
                    c.count("touching" if rel.startswith("touching") else "containments" if "contains" in rel else "overlaps")
                    c.situation("bodies", rel, "reported" if (t + dt, frozenset((p, q))) in reported else "not reported")
            for k, o in obst:
                if f[p].intersects(o):
                    rel = relation(f[p], o)
                    c.count("degenerate contacts")
                    c.situation("obstacle", k, rel, "reported" if (t + dt, frozenset((p,))) in reported else "not reported")


def contained(c):
    """A small body or obstacle inside of another one, away from its centre"""
    a = W.spec(c, c.pick(["car", "truck", "spacecraft", "car_dyn", "obstacle", "diff"]))
    ma = a.build()
    fa = ma.get_footprint()
    s = T.small_inside(c, fa)
    if s is None:
        return
    c.note(a=(a.kind, a.x0), inside=s.wkt)
    va = field(ma)
    if c.chance(0.5):
        obs = StaticObstacle(s)
        r = resolve_collision_with_environment(A, ma, obs, D(1))
        vb = lambda x: np.zeros(2)
        what = "obstacle"
    else:
        x, y = s.centroid.x, s.centroid.y
        mb = W.make("obstacle", W.DynObstacleState(x, y, 0.0, c.u(-3, 3), c.u(-3, 3), 0.0), ObstacleGeometry(m=c.u(1, 10), Iz=c.u(1, 10), e=0.4),
                    W.parameters(c, "obstacle"), translate(s, -x, -y))
        vb = field(mb)
        s = mb.get_footprint()
        if not fa.contains(s):
            return
        r = resolve_collision(A, B, T.context({A: ma, B: mb}))
        what = "body"
    d = np.array(s.centroid.coords[0]) - np.array(fa.centroid.coords[0])
    dist = np.linalg.norm(d)
    P = np.array(s.centroid.coords[0])
    if dist < 1e-3:
        return
    sp = (va(P) - vb(P)) @ d / dist
    c.count("containments")
    if r is None:
        c.le(sp, 1e-6, "a contained body left without report is leaving towards the inside of the other one")
        return
    c.le(-1e-6, sp, "no report for separating bodies")
    judge(c, r, fa, s, None)
    c.situation("contained", a.kind, what)


FAMILIES = [("pairs", pairs, 1728, 30000), ("degenerate", degenerate, 400, 12000), ("contained", contained, 240, 6000)]
