"""V03: ghosting hides exactly the ghost, exactly beyond its distance."""
from vlib import triangulate  # before anything of dg_commons
import math
from decimal import Decimal as D

from frozendict import frozendict

from vlib import world as W
from vlib import simkit as K
from dg_commons.perception.sensor import FullRangeSensor
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter
from dg_commons.sim.simulator_structures import PlayerObservations, SimObservations

ID = "V03"
RULE = ("distinct (inner sensor, who observes, ghost present, side of and closeness to the threshold, nesting depth) classes in which "
        "the players and contents left by ghosting sensors were compared with a reference")
REQUIRE = {"observations compared": 1500, "ghost hidden": 300, "ghost kept": 150, "ghost observes": 200, "ghost absent": 200, "nested": 400, "identity": 200, "close to threshold": 150, "crowds": 20, "at the threshold": 150, "late and fresh positions disagree": 200}
MIN_SITUATIONS = 40
SCEN = DgScenario()
# also names that differ little: upper and lower case, one the beginning of another, blanks
NAMES = ["P0", "P1", "p1", "P2", "ego", "Ego", "a b", "ab", "Ghost", "P10", "P1 ", "É", "é"]


def world(c):
    names = c.rng.sample(NAMES, c.int(1, 6))
    if c.chance(0.04):
        names = c.rng.sample(NAMES + [f"c{i}" for i in range(20)], c.int(7, 25))
        c.count("crowds")
    out = {}
    o = (c.u(-1e3, 1e3), c.u(-1e3, 1e3)) if c.chance(0.3) else (0, 0)
    for n in names:
        m = W.spec(c, c.pick(W.KINDS), at=(o[0] + c.u(-30, 30), o[1] + c.u(-30, 30), c.ang(2))).build()
        out[n] = PlayerObservations(state=m.get_state(), occupancy=m.get_footprint())
    return SimObservations(players=frozendict(out), time=D(str(round(c.u(0, 50), 2))))


def dist(obs, a, b):
    p, q = obs.players[a].state, obs.players[b].state
    return math.hypot(p.x - q.x, p.y - q.y)


def exact(got, want, obs, c, **kw):
    c.true(isinstance(got, SimObservations), "an observation is returned")
    c.eq(list(got.players), [p for p in want.players], "players left by the sensor", **kw)
    c.eq(got.time, want.time, "time stamp", **kw)
    for n, p in got.players.items():
        q = want.players[n]
        c.true(type(p.state) is type(q.state) and W.vals(p.state).tolist() == W.vals(q.state).tolist() and p.occupancy.wkb == q.occupancy.wkb, "players that are left are described as before", player=n, **kw)
    c.count("observations compared")


def hide(obs, pov, ghost, d):
    """reference"""
    gone = pov != ghost and ghost in obs.players and dist(obs, pov, ghost) > d
    return SimObservations(players=frozendict({n: p for n, p in obs.players.items() if n != ghost or not gone}), time=obs.time), gone


def threshold(c, obs, pov, ghost):
    if ghost in obs.players and ghost != pov and c.chance(0.7):
        d = dist(obs, pov, ghost)
        how = c.pick(["just below", "just above", "below", "above"])
        return how, {"just below": d * (1 - 1e-9) - 1e-9, "just above": d * (1 + 1e-9) + 1e-9, "below": c.u(0, d), "above": d + c.u(0, 10)}[how]
    return c.pick([("zero", 0), ("zero", 0.0), ("far", 1e6)])


def single(c):
    obs = world(c)
    pov = c.pick(sorted(obs.players))
    ghost = c.pick(sorted(obs.players) + ["nobody"])
    how, d = threshold(c, obs, pov, ghost)
    k = c.pick(["identity", "range"])
    inner = IdObsFilter() if k == "identity" else FovObsFilter(FullRangeSensor(range=c.u(5, 60)))
    base = inner.sense(SCEN, obs, pov)
    flt = GhostObsFilter(inner, ghost, d)
    before = [(n, W.vals(p.state).tolist(), p.occupancy.wkb) for n, p in obs.players.items()]
    for _ in range(2):
        got = flt.sense(SCEN, obs, pov)
        want, gone = hide(base, pov, ghost, d)
        exact(got, want, obs, c, pov=pov, ghost=ghost, threshold=d, distance=dist(obs, pov, ghost) if ghost in obs.players else None, inner=k)
    c.eq([(n, W.vals(p.state).tolist(), p.occupancy.wkb) for n, p in obs.players.items()], before, "the full observation is left untouched")
    who = "ghost observes" if pov == ghost else "ghost absent" if ghost not in base.players else "ghost hidden" if gone else "ghost kept"
    c.count(who)
    if how.startswith("just"):
        c.count("close to threshold")
    c.situation(k, who, how, "alone" if len(obs.players) == 1 else "others")


def at_threshold(c):
    """distances without rounding: at the threshold itself the ghost is still seen"""
    x, y, h = c.pick([(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1), (7, 24, 25), (20, 21, 29)])
    k = 2.0 ** c.int(-3, 3) * c.int(1, 3)
    x, y, h = x * k * c.sign(), y * k * c.sign(), h * k
    if c.chance(0.5):
        x, y = y, x
    names = c.rng.sample(NAMES, c.int(2, 4))
    o = (float(c.int(-40, 40)), float(c.int(-40, 40)))
    out = {}
    for i, n in enumerate(names):
        at = (*o, c.ang(2)) if i == 0 else (o[0] + x, o[1] + y, c.ang(2)) if i == 1 else (c.u(-30, 30), c.u(-30, 30), c.ang(2))
        m = W.spec(c, c.pick(W.KINDS), at=at).build()
        out[n] = PlayerObservations(state=m.get_state(), occupancy=m.get_footprint())
    obs = SimObservations(players=frozendict(c.rng.sample(list(out.items()), len(out))), time=D(1))
    p, q = obs.players[names[0]].state, obs.players[names[1]].state
    if (p.x, p.y) != o or (q.x, q.y) != (o[0] + x, o[1] + y):
        return
    for d, gone in ((h, False), (math.nextafter(h, 0) * (1 - 1e-12), True)):
        want = SimObservations(players=frozendict({n: v for n, v in obs.players.items() if n != names[1] or not gone}), time=obs.time)
        exact(GhostObsFilter(IdObsFilter(), names[1], d).sense(SCEN, obs, names[0]), want, obs, c, threshold=d, distance=h)
    c.count("at the threshold")
    c.situation("at the threshold", h)


def identity(c):
    obs = world(c)
    pov = c.pick(sorted(obs.players))
    got = IdObsFilter().sense(SCEN, obs, pov)
    exact(got, obs, obs, c)
    c.count("identity")


def nested(c):
    obs = world(c)
    pov = c.pick(sorted(obs.players))
    flt = IdObsFilter()
    hidden, depth = set(), c.int(2, 4)
    hows = []
    for _ in range(depth):
        ghost = c.pick(sorted(obs.players) + ["nobody"])
        how, d = threshold(c, obs, pov, ghost)
        hows.append(how)
        if hide(obs, pov, ghost, d)[1]:
            hidden.add(ghost)
        flt = GhostObsFilter(flt, ghost, d)
    got = flt.sense(SCEN, obs, pov)
    want = SimObservations(players=frozendict({n: p for n, p in obs.players.items() if n not in hidden}), time=obs.time)
    exact(got, want, obs, c, pov=pov, hidden=hidden)
    c.count("nested")
    c.situation("nested", depth, len(hidden))


def moving(c):
    """one sensor over time and for several observers: no memory of earlier answers"""
    ghost = c.pick(["P0", "P1", "p1", "ego", "Ego"])
    d = c.pick([0, 20.0, 35.0])
    flt = GhostObsFilter(IdObsFilter(), ghost, d)
    for _ in range(6):
        obs = world(c)
        pov = c.pick(sorted(obs.players))
        if pov != ghost and ghost in obs.players and abs(dist(obs, pov, ghost) - d) < 1e-6:
            continue
        want, gone = hide(obs, pov, ghost, d)
        exact(flt.sense(SCEN, obs, pov), want, obs, c, pov=pov, ghost=ghost, threshold=d)
        who = "ghost observes" if pov == ghost else "ghost absent" if ghost not in obs.players else "ghost hidden" if gone else "ghost kept"
        c.count(who)
        c.situation("moving", who, d)


def delayed(c):
    """the ghost and its observer as the inner (late) sensor saw them: fresh positions play no role, the ghost may be gone by now"""
    names = c.pick([["P0", "P1", "ego"], ["P0", "p0", "P1"], ["ego", "Ego", "EGO"]])[: c.int(2, 3)]
    pov, ghost = names[0], c.pick(names[1:])
    lat, dt = c.int(1, 5), D("0.1")
    d = c.u(5, 25)
    flt = GhostObsFilter(DelayedObsFilter(IdObsFilter(), lat * dt), ghost, d)
    two = c.chance(0.4)
    if two:
        other = c.pick(names)
        d2 = c.u(5, 25)
        flt = GhostObsFilter(flt, other, d2)
    specs = {n: W.spec(c, c.pick(W.KINDS), at=(0, 0, 0)) for n in names}
    hist = []
    for i in range(c.int(8, 20)):
        out = {}
        for n in names:
            if n != pov and c.chance(0.2):
                continue
            m = specs[n].build()
            s = m.get_state()
            s.x, s.y = c.u(-12, 12), c.u(-12, 12)
            m.set_state(s)
            out[n] = PlayerObservations(state=m.get_state(), occupancy=m.get_footprint())
        full = SimObservations(players=frozendict(out), time=i * dt)
        hist.append(full)
        k = max(i - lat, 0)
        base = SimObservations(players=hist[k].players, time=k * dt + lat * dt)
        want, gone = hide(base, pov, ghost, d)
        if two:
            want, g2 = hide(want, pov, other, d2)
        fresh = ghost in full.players and dist(full, pov, ghost) > d
        exact(flt.sense(SCEN, full, pov), want, full, c, pov=pov, ghost=ghost, threshold=d, at=i * dt, latency=lat * dt)
        if gone != fresh:
            c.count("late and fresh positions disagree")
        c.situation("delayed", ghost in base.players, ghost in full.players, gone, fresh, two)


def simulation(c):
    """what agents in a simulation are told"""
    w = K.world(c, n=c.int(2, 4), sensors=False)
    conf = {}
    for n in w.names:
        g, d = c.pick(w.names), c.pick([0, c.u(1, 15)])
        conf[n] = (g, d)
        w.ctx.sensors[n] = K.RecSensor(w.tr, n, GhostObsFilter(IdObsFilter(), g, d))
    w.run()
    full = None
    for e in w.tr.ev:
        if e.kind == "sense":
            full = e.a[1]
        elif e.kind == "poll":
            g, d = conf[e.who]
            dd = math.hypot(full[g][0].x - full[e.who][0].x, full[g][0].y - full[e.who][0].y) if g in full else None
            gone = g != e.who and dd is not None and dd > d
            c.eq(set(e.a[1]), {p for p in full if p != g or not gone}, "players an agent was told about", agent=e.who, ghost=g, threshold=d, distance=dd)
            c.count("observations compared")
            c.situation("simulation", g == e.who, gone, g in full)


FAMILIES = [("at the threshold", at_threshold, 300, 3000), ("single", single, 900, 20000), ("identity", identity, 250, 2000), ("nested", nested, 500, 10000), ("moving", moving, 200, 4000), ("delayed", delayed, 120, 3000), ("simulation", simulation, 40, 800)]
