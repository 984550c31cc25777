"""S06: after each step, all pairs and all obstacles against the reports of that step."""
import math
from collections import defaultdict
from decimal import Decimal as D

import numpy as np
from shapely.geometry import LineString, Point, Polygon

from vlib import simkit as K
from vlib import world as W

ID = "S06"
RULE = ("distinct (contact partners, contact kind, approaching or separating, reported or not, several contacts in the step) "
        "classes of contacts found by an independent exhaustive search after every step and compared with the reports")
REQUIRE = {"steps": 800, "pairs searched": 4000, "obstacles searched": 1500, "approaching pair contacts": 60,
           "separating pair contacts": 30, "approaching obstacle contacts": 60, "separating obstacle contacts": 20,
           "first collision times": 100, "approaching contained pairs": 40,
           "players between obstacles": 100, "several obstacles approached": 40, "contacts far from the reference points": 40,
           "contacts among the same kind": 500, "contacts among moving obstacles": 8, "crept up": 20}
MIN_SITUATIONS = 15
ENV = "Env"


def crossing(a, b):
    """The two points where the boundaries of two shapes cross, if there are exactly two"""
    ab = a.exterior
    bb = b.exterior if isinstance(b, Polygon) else b
    x = ab.intersection(bb)
    pts = [g for g in getattr(x, "geoms", [x])]
    if x.is_empty or any(not isinstance(g, Point) for g in pts) or len(pts) != 2:
        return None
    p, q = np.array(pts[0].coords[0]), np.array(pts[1].coords[0])
    return (p, q) if np.linalg.norm(p - q) > 1e-3 else None


def approach(a, b, va, vb):
    """Speed (m/s) at which first party approaches the second at the contact; None if there is no simple contact.
    va, vb: functions giving the velocity of a point of each body"""
    x = crossing(a, b)
    if x is None:
        return None
    if not isinstance(b, Polygon) and not a.intersection(b).geom_type == "LineString":
        return None
    inter = a.intersection(b)
    if isinstance(b, Polygon) and inter.geom_type != "Polygon":
        return None
    p, q = x
    m = (p + q) / 2
    n = np.array([-(q - p)[1], (q - p)[0]]) / np.linalg.norm(q - p)
    r = m - np.array(a.centroid.coords[0])
    if abs(r @ n) < 1e-6:
        return None
    n = n if r @ n > 0 else -n
    return float((va(m) - vb(m)) @ n)


def approach_inside(a, b, va, vb):
    """The same if one of the bodies lies inside the other: along the line of their centres, at the centre of the inner one.
    None if that is not the case or the centres coincide"""
    if not isinstance(b, Polygon):
        b = b.convex_hull if not isinstance(b, LineString) or b.is_closed else b
    if a.buffer(-1e-3).contains(b):
        m = np.array(b.centroid.coords[0])
    elif isinstance(b, Polygon) and b.buffer(-1e-3).contains(a):
        m = np.array(a.centroid.coords[0])
    else:
        return None
    n = np.array(b.centroid.coords[0]) - np.array(a.centroid.coords[0])
    if np.linalg.norm(n) < 1e-3:
        return None
    return float((va(m) - vb(m)) @ n / np.linalg.norm(n))


def body_vel(w, p, st):
    """Velocity field of player p in state st"""
    s = w.init_specs[p]
    if s.kind == "toy":
        v, om = np.array([st.vx, st.vy]), st.dpsi
    else:
        v, om = s.build(st).get_velocity(in_model_frame=False)
    o = np.array([st.x, st.y])
    return lambda x: np.array([v[0] - om * (x - o)[1], v[1] + om * (x - o)[0]])


def at_rest(x):
    return np.zeros(2)


def check(c, w):
    ctx, tr = w.ctx, w.tr
    dt = ctx.param.dt
    ups = {p: {e.t: e for e in tr.of("update", p)} for p in w.names}
    times = sorted({e.t for e in tr.of("update")})
    obst = [o.shape for o in ctx.dg_scenario.static_obstacles]
    by_t = defaultdict(list)
    for r in ctx.collision_reports:
        by_t[r.at_time].append(r)
    nonfinal = [t + dt for t in times[:-1]]
    for t in by_t:
        c.true(t in nonfinal, "a collision was reported at a time that is not the end of a non-final step", at=t)
    setvel = defaultdict(list)
    for e in tr.of("setvel"):
        setvel[(e.t, e.who)].append(e)
    named = set()
    for t in nonfinal:
        reps = by_t[t]
        act = [p for p in w.names if t in ups[p]]  # advanced in the following step as well
        foot = {p: ups[p][t - dt].c[1] for p in act}
        stat = {p: ups[p][t - dt].c[0] for p in act}
        hist = {p: [stat[p]] + [e.b for e in setvel[(t, p)]] for p in act}
        c.count("steps")
        pair_reps, env_reps = defaultdict(list), defaultdict(list)
        for r in reps:
            k = frozenset(r.players)
            c.true(k - {ENV} <= set(act), f"report at {t} names players that are not active", named=list(r.players), active=act)
            if len(k - {ENV}) == 2 and ENV not in k:
                pair_reps[k].append(r)
            else:
                c.eq(len(k - {ENV}), 1, "parties of a report")
                env_reps[next(iter(k - {ENV}))].append(r)
            if r.impact_point is not None:
                named |= k - {ENV}
        # who is in contact
        pairs, envs = {}, defaultdict(list)
        for i, p in enumerate(act):
            for q in act[i + 1:]:
                c.count("pairs searched")
                if foot[p].intersects(foot[q]):
                    pairs[frozenset((p, q))] = foot[p].intersection(foot[q]).area
            for j, o in enumerate(obst):
                c.count("obstacles searched")
                if foot[p].intersects(o):
                    envs[p].append(j)
        for k, rs in pair_reps.items():
            c.true(k in pairs, f"report at {t} names players whose footprints do not intersect", players=sorted(k))
            c.le(len(rs), 1, f"several reports of one collision of {sorted(k)} at {t}")
        c.count("contacts far from the reference points", sum(math.hypot(x.x - y.x, x.y - y.y) > 25 for x, y in ([stat[p] for p in k] for k in pairs)))
        contacts = defaultdict(int)
        for k in pairs:
            for p in k:
                contacts[p] += 1
        for p in envs:
            contacts[p] += len(envs[p])
        # pairs
        for k, area in pairs.items():
            p, q = [x for x in w.order if x in k]
            c.count("contacts among the same kind", w.init_specs[p].kind == w.init_specs[q].kind)
            c.count("contacts among moving obstacles", w.init_specs[p].kind == w.init_specs[q].kind == "obstacle")
            rs = pair_reps.get(k, [])
            sp = approach(foot[p], foot[q], body_vel(w, p, stat[p]), body_vel(w, q, stat[q]))
            alone = contacts[p] == 1 and contacts[q] == 1
            if foot[q].buffer(-1e-3).contains(foot[p]) or foot[p].buffer(-1e-3).contains(foot[q]):
                inner = "first" if foot[q].contains(foot[p]) else "second"
                sps = [approach_inside(foot[p], foot[q], body_vel(w, p, a), body_vel(w, q, b)) for a in hist[p] for b in hist[q]]
                if all(x is not None and x > 1e-6 for x in sps):
                    c.count("approaching contained pairs")
                    c.eq(len(rs), 1, f"reports of {p} and {q}, one inside the other, at {t}, approaching with {sps[0]} m/s", inner=inner)
                c.situation("pair", "inside", inner, "reported" if rs else "silent", alone)
                continue
            if sp is None or area < 1e-7:
                c.situation("pair", "complex", "reported" if rs else "silent", alone)
                continue
            if alone:
                if sp > 1e-6:
                    c.count("approaching pair contacts")
                    c.eq(len(rs), 1, f"reports of the collision of {p} and {q} at {t}, approaching with {sp} m/s")
                elif sp < -1e-6:
                    c.count("separating pair contacts")
                    c.eq(len(rs), 0, f"reports of the contact of {p} and {q} at {t} although they separate with {-sp} m/s")
            elif not rs:
                # some collision resolved earlier in the step must have made them separate
                sps = [approach(foot[p], foot[q], body_vel(w, p, a), body_vel(w, q, b)) for a in hist[p] for b in hist[q]]
                c.true(min(sps) < 1e-6, f"collision of {p} and {q} at {t} not reported although they were approaching all along", sps=sps)
            c.situation("pair", "simple", "appr" if sp > 0 else "sep", "reported" if rs else "silent", alone)
        # obstacles
        for p in act:
            rs = env_reps.get(p, [])
            if w.init_specs[p].kind == "obstacle":
                c.eq(len(rs), 0, f"moving obstacle {p} bouncing off the environment was reported at {t}")
                if envs[p]:
                    c.situation("bounce")
                continue
            c.le(len(rs), len(envs[p]), f"reports of {p} with the environment at {t}, in contact with {len(envs[p])} obstacles")
            vs = [approach(foot[p], obst[j], body_vel(w, p, stat[p]), at_rest) for j in envs[p]]
            # collisions among players are resolved afterwards and thus do not matter here
            if len(vs) == 1 and vs[0] is not None and foot[p].intersection(obst[envs[p][0]]).length > 1e-3:
                sp = vs[0]
                if sp > 1e-6:
                    c.count("approaching obstacle contacts")
                    c.eq(len(rs), 1, f"reports of {p} hitting obstacle {envs[p]} at {t} with {sp} m/s")
                elif sp < -1e-6:
                    c.count("separating obstacle contacts")
                    c.eq(len(rs), 0, f"reports of {p} leaving obstacle {envs[p]} at {t} with {-sp} m/s")
                c.situation("env", obst[envs[p][0]].geom_type, "appr" if sp > 0 else "sep", "reported" if rs else "silent")
            elif len(vs) > 1:
                # an obstacle needs no report only if earlier ones made the player leave it; once resolved it is left
                sps = {j: [approach(foot[p], obst[j], body_vel(w, p, s), at_rest) for s in hist[p]]
                       for j in envs[p] if foot[p].intersection(obst[j]).length > 1e-3}
                sps = {j: v for j, v in sps.items() if None not in v}
                ignored = [j for j, v in sps.items() if min(v) > 1e-6]
                n0 = sum(v[0] > 1e-6 for v in sps.values())
                c.count("players between obstacles")
                c.count("several obstacles approached", n0 > 1)
                if w.init_specs[p].kind not in W.FULLVEL + ("toy",):
                    # cannot move sideways, hence may keep approaching
                    c.le(len(ignored), len(rs), f"reports of {p} meeting obstacles {envs[p]} at {t}, approaching {ignored} all along", sps=sps)
                else:
                    c.true(not ignored, f"{p} meets obstacles {envs[p]} at {t} and keeps approaching {ignored}: not resolved", sps=sps)
                if n0:
                    c.true(rs, f"{p} hits obstacles {envs[p]} at {t} without any report", sps=sps)
                c.situation("env", "several", min(n0, 3), min(len(rs), 3))
            elif envs[p]:
                o = obst[envs[p][0]]
                sp = approach_inside(foot[p], o, body_vel(w, p, stat[p]), at_rest)
                if sp is not None and sp > 1e-6 and isinstance(o, Polygon):
                    c.count("approaching contained obstacles")
                    c.eq(len(rs), 1, f"reports of {p} and obstacle {envs[p]}, one inside the other, at {t}, approaching with {sp} m/s")
                    c.situation("env", "inside", foot[p].contains(o))
                c.situation("env", "complex", "reported" if rs else "silent")
    ts = [r.at_time for r in ctx.collision_reports]
    c.eq(ctx.first_collision_ts, min(ts) if ts else D("Infinity"), "first collision time")
    c.count("first collision times")
    for p in named:
        c.true(ctx.models[p].has_collided, f"{p} is named in a report but not marked as collided")
    from dg_commons.sim.utils import who_collided

    c.eq(set(who_collided(ctx)) - {ENV}, {p for r in ctx.collision_reports for p in r.players} - {ENV}, "who collided")


def case(c):
    check(c, K.world(c, n=c.int(2, 6), spread=c.pick([4, 7]), after=D(100), missions=0.3).run())


def case_toys(c):
    check(c, K.world(c, n=c.int(2, 7), kinds=["toy"], spread=c.pick([4, 9]), obstacles=c.int(0, 10), after=D(100), missions=0.2,
                     max_steps=(15, 50)).run())


def case_kinds(c):
    """Only real models, moving obstacles included"""
    kinds = c.pick([W.KINDS, W.KINDS, ["obstacle"], ["obstacle"], [c.pick(W.KINDS)], [c.pick(W.KINDS), c.pick(W.KINDS)]])
    check(c, K.world(c, n=c.int(2, 5), kinds=kinds, spread=5, obstacles=c.int(1, 5), after=D(100), missions=0.2,
                     max_steps=(5, 15)).run())


def case_sizes(c):
    """Small bodies within and around large ones"""
    w = K.world(c, n=c.int(3, 6), kinds=["toy"], spread=2.5, obstacles=c.int(0, 2), after=D(100), missions=0.1, max_steps=(8, 20),
                sizes=[(0.1, 0.3), (0.2, 0.5), (2.0, 5.0)])
    check(c, w.run())


def case_huge(c):
    """Bodies as long as a train, touched far away from their reference point"""
    L = c.pick([20, 60, 200])
    w = K.world(c, n=c.int(3, 6), kinds=["toy"], spread=0.6 * L, obstacles=c.int(0, 3), after=D(100), missions=0.1, max_steps=(8, 20),
                sizes=[(0.5, 2.0), (0.5, 2.0), (0.5 * L, L)])
    check(c, w.run())


def case_wedge(c):
    """Bodies thrown into corners formed by several obstacles"""
    th, op = c.ang(), c.u(0.5, 2.6)  # bisector and opening of the corner
    at = np.array([c.u(-3, 3), c.u(-3, 3)])
    obst = []
    for s in (1, -1):
        d = np.array([math.cos(th + s * op / 2), math.sin(th + s * op / 2)])
        a, b = at + c.u(0.02, 0.3) * d, at + 12 * d
        if c.chance(0.4):
            obst.append(LineString([a, b]))
        else:
            o = -s * np.array([d[1], -d[0]]) * c.u(0.3, 2)
            obst.append(Polygon([a, b, b + o, a + o]))
    if c.chance(0.4):
        d = np.array([math.cos(th), math.sin(th)])
        obst.append(Point(at + c.u(0.5, 3) * d).buffer(c.u(0.2, 0.6), quad_segs=2))
    c.rng.shuffle(obst)
    w = K.world(c, n=c.int(1, 3), kinds=["toy"], spread=4, after=D(100), missions=0.0, max_steps=(20, 50), shapes=obst, dt=c.pick([D("0.05"), D("0.1")]))
    for p in w.names:
        m = w.ctx.models[p]
        d, v = c.u(2, 7), c.u(2, 9)
        x = m._state
        x.x, x.y = (at + d * np.array([math.cos(th), math.sin(th)])).tolist()
        x.vx, x.vy, x.dpsi = -v * math.cos(th + c.u(-0.3, 0.3)), -v * math.sin(th + c.u(-0.3, 0.3)), c.u(-0.5, 0.5)
    check(c, w.run())


def case_creep(c):
    """Bodies that come upon round or jagged obstacles by millimetres, and just about touch them"""
    n, r = c.int(12, 120), c.u(0.4, 3)
    a = 2 * math.pi * np.arange(n) / n
    rough = c.pick([0.0, 0.004, 0.02])
    ring = np.stack([np.cos(a), np.sin(a)], 1) * (r - rough * (np.arange(n) % 2))[:, None] + [c.u(-3, 3), c.u(-3, 3)]
    o = Polygon(ring)
    w = K.world(c, n=1, kinds=["toy"], spread=4, after=D(100), missions=0.0, max_steps=(10, 25), shapes=[o], dt=D("0.05"))
    (p,) = w.names
    m = w.ctx.models[p]
    x = m._state
    th = c.ang()
    d = np.array([math.cos(th), math.sin(th)])
    ctr = ring.mean(axis=0)
    lo, hi = 0.0, 30.0  # as close as the obstacle lets it
    for _ in range(50):
        mid = (lo + hi) / 2
        x.x, x.y = (ctr + mid * d).tolist()
        lo, hi = (mid, hi) if m.get_footprint().intersects(o) else (lo, mid)
    gap, step = c.u(0.0005, 0.01), c.u(0.0005, 0.004)
    x.x, x.y = (ctr + (hi + gap) * d).tolist()
    v = -step / 0.05 * d
    x.vx, x.vy, x.dpsi = float(v[0]), float(v[1]), 0.0
    check(c, w.run())
    c.count("crept up")


FAMILIES = [("creep", case_creep, 40, 800), ("huge", case_huge, 60, 1200), ("sizes", case_sizes, 60, 2000), ("wedge", case_wedge, 60, 2000), ("mixed", case, 60, 2000), ("toys", case_toys, 120, 5000), ("real models", case_kinds, 48, 1500)]
