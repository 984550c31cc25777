"""E02: safety metrics match the geometry of the log."""
import math
from decimal import Decimal as D
from fractions import Fraction as F

import numpy as np
from shapely.affinity import translate
from shapely.geometry import Polygon

from vlib import simkit as K
from vlib import world as W
from vlib.core import rot
from dg_commons import DgSampledSequence, PlayerName
from dg_commons.eval.safety import get_min_dist, get_min_ttc_max_drac, has_collision
from dg_commons.sim.collision_structures import CollisionReport
from dg_commons.sim.goals import PolygonGoal
from dg_commons.sim.models.vehicle import VehicleCommands
from dg_commons.sim.simulator_structures import PlayerLog, SimLog

ID = "E02"
RULE = ("distinct (metric, number of vehicles, some of them finished, ego finished, window, outcome) classes in which a safety metric over a log was "
        "compared with a brute-force evaluation on independently placed outlines")
REQUIRE = {"minimum distances": 400, "times to collision": 400, "finite times": 120, "infinite times": 80, "finished players": 150, "finished ego": 15, "windows": 200,
           "window on a sample": 40, "overlapping": 20, "collision reports": 150, "recorded": 15, "required decelerations": 80}
MIN_SITUATIONS = 40
STEP, HORIZON, FAR = 0.1, 3.0, 5.0


def outline(model, s):
    g = model.vg
    p = np.array(g.outline_as_polygon.exterior.coords) @ rot(s.psi).T + [s.x, s.y]
    return Polygon(p)


def seqs(ts, states):
    X = type(states[0])
    cmd = DgSampledSequence[VehicleCommands](timestamps=list(ts), values=[VehicleCommands(acc=0.0, ddelta=0.0) for _ in ts])
    return PlayerLog(states=DgSampledSequence[X](timestamps=list(ts), values=list(states)), commands=cmd,
                     extra=DgSampledSequence[str](timestamps=[], values=[]), info=DgSampledSequence[float](timestamps=list(ts), values=[0.0] * len(ts)))


def square(x, y, r):
    return PolygonGoal(Polygon([(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)]))


def scene(c, approach):
    """models, log, goals; 'Ego' among a random number of vehicles moving without law"""
    n = c.int(2, 5)
    names = ["Ego"] + [f"P{i}" for i in range(1, n)]
    kinds = [c.pick(("car", "truck", "bicycle", "car_dyn", "bicycle_dyn")) for _ in names]
    dt, m = c.pick([D("0.1"), D("0.05"), D("0.5")]), c.int(1, 14)
    t0 = c.pick([D(0), D(0), D("1.3")])
    ts = [t0 + i * dt for i in range(m)]
    spread = c.pick([4, 10, 25])
    models, log, goals = {}, SimLog(), {}
    centre = np.array([c.u(-100, 100), c.u(-100, 100)])
    for name, kind in zip(names, kinds):
        sp = W.spec(c, kind, at=(float(centre[0]) + c.u(-spread, spread), float(centre[1]) + c.u(-spread, spread), c.ang()), speed=None)
        models[name] = sp.build()
        s = models[name].get_state()
        how = c.pick(["steady", "steady", "jumpy", "parked"])
        v = 0.0 if how == "parked" else c.u(0, 12)
        if approach and how == "steady":
            s.psi = math.atan2(centre[1] - s.y, centre[0] - s.x) + c.u(-0.4, 0.4)
        s.vx = v
        states = []
        turn = c.u(-0.3, 0.3)
        for i in range(m):
            q = type(s)(**{**W.as_dict(s)})
            if how == "steady":
                q.x = s.x + float(i * dt) * v * math.cos(s.psi)
                q.y = s.y + float(i * dt) * v * math.sin(s.psi)
            elif how == "jumpy":
                q.x, q.y, q.psi, q.vx = s.x + c.u(-4, 4), s.y + c.u(-4, 4), c.ang(), c.u(-1, 12)
            states.append(q)
        k = c.pick(["never", "never", "now", "sometime", "gone"])
        if name == "Ego" and k != "never" and c.chance(0.6):
            k = "never"
        goals[name] = square(1e4, 1e4, 1)
        mine = list(ts)
        if k == "now":
            goals[name] = square(s.x, s.y, 300)
        elif k == "sometime":
            q = c.pick(states)
            goals[name] = square(q.x, q.y, 0.2)
        elif k == "gone" and name != "Ego" and m > 2:
            # fulfilled its mission and left the simulation
            j = c.int(1, m - 1)
            mine, states = mine[:j], states[:j]
            goals[name] = square(states[-1].x, states[-1].y, 0.2)
        log[PlayerName(name)] = seqs(mine, states)
    order = list(names)
    c.rng.shuffle(order)
    out = SimLog()
    for k in order:
        out[k] = log[k]
    return names, models, out, goals, ts


def window(c, ts):
    lo = hi = None
    how = c.pick(["everything", "from", "until", "both", "on samples"])
    a, b = float(ts[0]), float(ts[-1])
    tm = (lambda v: D(str(round(v, 3)))) if c.chance(0.6) else float
    if how == "from":
        lo = tm(c.u(a, b))
    elif how == "until":
        hi = tm(c.u(a, b))
    elif how == "both":
        lo, hi = sorted((tm(c.u(a, b)), tm(c.u(a, b))))
    elif how == "on samples":
        i, j = sorted((c.int(0, len(ts) - 1), c.int(0, len(ts) - 1)))
        lo, hi = ts[i], ts[j]
        c.count("window on a sample")
    if how != "everything":
        c.count("windows")
    return how, lo, hi


def args(lo, hi):
    return {} if lo is None and hi is None else {"t_range": (lo, hi)}


def within(t, lo, hi):
    return (lo is None or F(t) >= F(lo)) and (hi is None or F(t) <= F(hi))


def at(log, t):
    ts = list(log.states.timestamps)
    return log.states.values[ts.index(t)] if t in ts else log.states.values[-1]


def active(c, names, log, goals, t):
    out = {}
    for n in names:
        s = at(log[n], t)
        g = goals[n].goal
        x0, y0, x1, y1 = g.bounds
        if x0 < s.x < x1 and y0 < s.y < y1:
            c.count("finished ego" if n == "Ego" else "finished players")
        else:
            out[n] = s
    return out


def distance(c):
    names, models, log, goals, ts = scene(c, False)
    how, lo, hi = window(c, ts)
    check_distance(c, names, models, log, goals, ts, how, lo, hi)


def check_distance(c, names, models, log, goals, ts, how, lo, hi, ego="Ego"):
    got, who, when = get_min_dist(log, models, goals, PlayerName(ego), **args(lo, hi))
    table = []
    for t in ts:
        if within(t, lo, hi):
            a = active(c, names, log, goals, t)
            if ego not in a:
                continue
            e = outline(models[ego], a[ego])
            for n, s in a.items():
                if n != ego:
                    table.append((e.distance(outline(models[n], s)), n, t))
    kw = dict(window=(lo, hi), times=(ts[0], ts[-1], len(ts)))
    if not table:
        c.eq((got, who, when), (math.inf, None, None), "nobody around: no minimum distance", **kw)
    else:
        best = min(table, key=lambda r: r[0])
        c.close(got, best[0], "minimum distance", atol=1e-6, rtol=1e-9, expected_with=best[1:], got_with=(who, when), **kw)
        mine = [r for r in table if r[1] == who and r[2] == when]
        c.true(len(mine) == 1 and abs(mine[0][0] - best[0]) < 1e-6, "the vehicle and time reported are those of the minimum", got_with=(who, when), expected_with=best[1:], **kw)
        c.true(not any(r[2] < when and r[0] < got - 1e-6 for r in table), "no smaller distance earlier", **kw)
        first = next(r[2] for r in table if r[0] < best[0] + 1e-9)
        if best[0] == 0:
            c.count("overlapping")
            c.eq(when, first, "the first such time is reported", **kw)
    c.count("minimum distances")
    c.situation("distance", len(names), how, "nobody" if not table else "touching" if best[0] == 0 else "apart", "some finished" if any(goals[n].goal.area != 4 for n in names) else "none finished")


def ttc_table(models, a, ego):
    """{player: (time or inf, certain)} of those approaching within reach"""
    e = a[ego]
    pe = outline(models[ego], e)
    ve = e.vx * np.array([math.cos(e.psi), math.sin(e.psi)])
    out = {}
    for n, s in a.items():
        if n == ego:
            continue
        r = np.array([s.x - e.x, s.y - e.y])
        d = float(np.hypot(*r))
        v = s.vx * np.array([math.cos(s.psi), math.sin(s.psi)]) - ve
        closing = -float(v @ r) / d if d > 0 else math.nan
        if not d > 1e-6:
            return None
        if abs(closing) < 1e-6 or abs(d / closing - FAR) < 1e-6:
            return None  # on the edge of being considered
        if closing < 0 or d / closing > FAR:
            continue
        po = outline(models[n], s)
        t = math.inf
        for k in range(int(round(HORIZON / STEP)) + 1):
            q = translate(po, *(v * STEP * k))
            g = pe.distance(q)
            if 0 < g < 1e-6 or (g == 0 and 0 < pe.intersection(q).area < 1e-7):
                return None  # grazing
            if g == 0:
                t = k * STEP
                break
        out[n] = t
    return out


def collision_time(c):
    names, models, log, goals, ts = scene(c, True)
    how, lo, hi = window(c, ts)
    check_ttc(c, names, models, log, goals, ts, how, lo, hi)


def check_ttc(c, names, models, log, goals, ts, how, lo, hi, ego="Ego"):
    with np.errstate(all="ignore"):
        ttc, who, when, drac, dwho, dwhen = get_min_ttc_max_drac(log, models, goals, PlayerName(ego), **args(lo, hi))
    table, decel, standing, slow, touched = [], [], False, False, []
    for t in ts:
        if within(t, lo, hi):
            a = active(c, names, log, goals, t)
            if ego not in a:
                continue
            r = ttc_table(models, a, ego)
            if r is None:
                c.count("unclear")
                return
            table += [(x, n, t) for n, x in r.items()]
            v = a[ego].vx
            for n, x in r.items():
                if v < 1e-3 or x < STEP / 2:
                    standing = True
                    slow = slow or v < 1e-3
                    if not touched or touched[0][1] == t:
                        touched.append((n, t))
                else:
                    decel.append((0.0 if x == math.inf else v / (2 * x), n, t))
    kw = dict(window=(lo, hi), times=(ts[0], ts[-1], len(ts)), table=sorted(table, key=lambda r: (r[0], r[2]))[:4])
    best = min((r[0] for r in table), default=math.inf)
    if best == math.inf:
        c.eq((float(ttc), who, when), (math.inf, None, None), "no collision ahead: infinite time to collision", **kw)
        c.count("infinite times")
    else:
        c.close(ttc, best, "time to collision", atol=1e-6, **kw)
        first = next((n, t) for x, n, t in table if x < best + 1e-6 and t == min(t for x, _, t in table if x < best + 1e-6))
        c.eq(when, first[1], "the first time of the smallest time to collision", **kw)
        c.true(any(n == who and t == when and abs(x - best) < 1e-6 for x, n, t in table), "the vehicle reported is that of the smallest time to collision", got=who, **kw)
        c.count("finite times")
    if not standing and decel:
        top = max(r[0] for r in decel)
        c.close(drac, top, "largest deceleration required", rtol=1e-6, atol=1e-9, **kw)
        c.true(any(n == dwho and t == dwhen and abs(x - top) <= 1e-6 * max(1, top) for x, n, t in decel), "the vehicle and time reported require that deceleration", got=(dwho, dwhen), **kw)
        c.count("required decelerations")
    if touched and not slow:
        c.close(drac, math.inf, "nothing avoids a vehicle that is touched already", **kw)
        c.true((dwho, dwhen) in touched, "the vehicle and time reported are those of the first one touched", got=(dwho, dwhen), touched=touched[:4], **kw)
        c.count("touched already")
    if not table:
        c.eq((drac, dwho, dwhen), (-math.inf, None, None), "nobody approaching: no deceleration required", **kw)
    c.count("times to collision")
    c.situation("time to collision", len(names), how, "nobody" if not table else "touching" if best == 0 else "never" if best == math.inf else "ahead")


def reports(c):
    def report(names):
        return CollisionReport(players={PlayerName(n): None for n in names}, impact_point=np.zeros(2), impact_normal=np.array([1.0, 0]), at_time=D(str(c.int(0, 9))))

    some = [report(c.rng.sample(["P1", "P2", "P3", "ego", "Ego2", "Ego"], 2)) for _ in range(c.int(0, 4))]
    want = any("Ego" in r.players for r in some)
    c.eq(bool(has_collision(some)), want, "a collision involves the ego exactly if a report names it", reports=[list(r.players) for r in some])
    c.count("collision reports")
    c.situation("reports", len(some), want)


def recorded(c):
    """logs of simulations, the finished leaving"""
    w = K.world(c, n=c.int(2, 4), kinds=["car", "truck", "bicycle"], sensors=False, record=False, obstacles=0, max_steps=(10, 30), missions=0.0, spread=12, t0=D(0))
    goals = {}
    for n in w.names:
        s = w.ctx.models[n].get_state()
        if c.chance(0.4):
            goals[n] = square(s.x + c.u(-3, 3), s.y + c.u(-3, 3), c.u(1, 2))
        else:
            goals[n] = square(1e4, 1e4, 1)
    w.ctx.missions = dict(goals)
    w.run()
    ego = w.names[0]
    log = w.ctx.log
    ts = list(log[ego].states.timestamps)
    how, lo, hi = window(c, ts)
    clear = lambda s, g: min(abs(s.x - g.bounds[0]), abs(s.x - g.bounds[2]), abs(s.y - g.bounds[1]), abs(s.y - g.bounds[3])) > 1e-9
    check_distance(c, w.names, w.ctx.models, log, goals, ts, how, lo, hi, ego=ego)
    check_ttc(c, w.names, w.ctx.models, log, goals, ts, how, lo, hi, ego=ego)
    c.count("recorded")


FAMILIES = [("distance", distance, 700, 8000), ("time to collision", collision_time, 800, 8000), ("reports", reports, 250, 1000), ("recorded", recorded, 30, 400)]
