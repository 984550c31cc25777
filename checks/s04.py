"""S04: benign run vs. the same run in which agents vandalise every object they were handed or handed over."""
import random
import zlib
from copy import deepcopy
from dataclasses import dataclass, field, fields
from decimal import Decimal as D

import numpy as np
from shapely.geometry import Polygon, box

from vlib import roads as R
from vlib import simkit as K
from vlib import world as W
from vlib.core import clone
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, RefLaneGoal
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario

ID = "S04"
RULE = ("distinct (what was vandalised, when, who reacts to observations) combinations for which the outcome of the run was "
        "compared entry by entry with the run in which nothing was touched")
REQUIRE = {"pairs of runs": 100, "vandalised states": 1500, "vandalised commands": 500, "vandalised goals": 40,
           "vandalised scenarios": 100, "reactions": 1500, "looks at its own scenario": 1000, "looks at its own goal": 1000}
MIN_SITUATIONS = 20
EPS = 1e6


@dataclass(frozen=True)
class BoxGoal(PlanningGoal):
    """A goal with mutable parts"""

    lim: list = field(hash=False)
    tag: dict = field(default_factory=dict, hash=False)

    def is_fulfilled(self, state, at=0):
        return self.lim[0] < state.x < self.lim[1] and self.lim[2] < state.y < self.lim[3]

    def get_plottable_geometry(self, at=0):
        return box(self.lim[0], self.lim[2], self.lim[1], self.lim[3])


def spoil(c, o, rng):
    """Changes every field of a state or command object"""
    for f in fields(o):
        if f.name in ("idx", "lights"):
            continue
        try:
            setattr(o, f.name, rng.uniform(-EPS, EPS))
        except Exception:
            pass


class Vandal:
    def __init__(self, c, p, what, seed):
        self.c, self.p, self.what, self.rng = c, p, what, random.Random(seed)
        self.kept_obs, self.kept_cmds, self.kept_init = [], [], None

    def on_init(self, init):
        self.kept_init = init
        self.wreck_init()

    def wreck_init(self):
        i, c = self.kept_init, self.c
        if "goal" in self.what and i.goal is not None:
            g = i.goal
            for name in ("lim", "tag"):
                v = getattr(g, name, None)
                if isinstance(v, list):
                    v[:] = [self.rng.uniform(-EPS, EPS) for _ in v] if name == "lim" else ["spoiled"]
                elif isinstance(v, dict):
                    v["spoiled"] = 1
            lane = getattr(g, "ref_lane", None)
            if lane is not None:
                for cp in list(lane.control_points):
                    cp.q.p[:] = self.rng.uniform(-EPS, EPS)
                lane.control_points.clear()
            c.count("vandalised goals")
        if "scenario" in self.what and i.dg_scenario is not None:
            s = i.dg_scenario
            for o in s.static_obstacles or ():
                o.shape = box(-EPS, -EPS, EPS, EPS)
            for f in (lambda: s.static_obstacles.clear(), lambda: s.static_obstacles.append(StaticObstacle(box(-EPS, -EPS, EPS, EPS)))):
                try:
                    f()
                except Exception:
                    pass
            if s.scenario is not None:
                for l in s.scenario.lanelet_network.lanelets:
                    for a in (l.left_vertices, l.right_vertices, l.center_vertices):
                        try:
                            a += EPS
                        except Exception:
                            pass
                s.scenario.remove_lanelet(list(s.scenario.lanelet_network.lanelets))
            s.static_obstacles = (StaticObstacle(box(-EPS, -EPS, EPS, EPS)),)
            s.strtree_obstacles = None
            s.scenario = None
            c.count("vandalised scenarios")

    def wreck_obs(self, obs):
        if "obs" not in self.what:
            return
        for p, o in list(obs.players.items()):
            spoil(self.c, o.state, self.rng)
            self.c.count("vandalised states")
        for f in (lambda: obs.players.pop(next(iter(obs.players))), lambda: obs.players.clear(),
                  lambda: obs.players.__setitem__("ghost", None), lambda: setattr(obs, "players", {}),
                  lambda: setattr(obs, "time", D(7))):
            try:
                f()
            except Exception:
                pass

    def wreck_cmds(self):
        if "cmds" not in self.what:
            return
        for u in self.kept_cmds:
            spoil(self.c, u, self.rng)
            self.c.count("vandalised commands")


def look(o):
    """A number that depends on everything in a scenario"""
    if isinstance(o, DgScenario):
        k = "|".join(x.shape.wkb_hex for x in o.static_obstacles)
        if o.strtree_obstacles is not None:
            k += "|".join(x.wkb_hex for x in o.strtree_obstacles.geometries)
        if o.scenario is not None:
            k += "".join(str((l.lanelet_id, l.left_vertices.tolist(), l.center_vertices.tolist())) for l in o.scenario.lanelet_network.lanelets)
    else:
        k = repr((getattr(o, "lim", None), getattr(o, "tag", None)))
        if getattr(o, "ref_lane", None) is not None:
            k += repr([(tuple(cp.q.p), cp.q.theta, cp.r) for cp in o.ref_lane.control_points])
    return zlib.crc32(k.encode()) / 7.3e7


class Meddler(K.RecAgent):
    """Computes its reply first (from what it is given), then vandalises"""

    vandal = None
    looks_at = ()  # parts of what it was initialised with that it bases its commands on

    def on_episode_init(self, init):
        super().on_episode_init(init)
        self.my = init.my_name
        if self.vandal is not None:
            self.vandal.on_init(init)

    def get_commands(self, obs):
        u = deepcopy(self.policy(self, obs))
        # reacts to everything it sees, so that any leak becomes physical
        x = 0.0
        for p in sorted(obs.players):
            for v in W.as_dict(obs.players[p].state).values():
                x = (x * 0.7 + v) % 97.0
            x += obs.players[p].occupancy.area
        for k in self.looks_at:
            x += look(self.init.dg_scenario if k == "scenario" else self.init.goal)
            self.seen(k)
        f0 = [f.name for f in fields(u) if f.name not in ("idx", "lights")][0]
        setattr(u, f0, getattr(u, f0) * (0.5 + (x % 1.0) / 2))
        self.count()
        self.n += 1
        if self.vandal is not None:
            v = self.vandal
            v.wreck_cmds()  # those handed over earlier
            v.kept_cmds = v.kept_cmds[-3:] + [u]
            v.kept_obs = v.kept_obs[-3:] + [obs]
            for o in v.kept_obs:
                v.wreck_obs(o)
            v.wreck_init() if self.n % 4 == 0 and v.kept_init.dg_scenario.strtree_obstacles is not None else None
        return u

    def count(self):
        pass

    def seen(self, k):
        pass

    def on_get_extra(self):
        # called after the commands were handed over
        if self.vandal is not None:
            self.vandal.wreck_cmds()
            for o in self.vandal.kept_obs:
                self.vandal.wreck_obs(o)
        return super().on_get_extra()


def build(c, what):
    """what: {} for the benign run, or player -> kinds of vandalism"""
    with_road = c.chance(0.3)
    sc = None
    if with_road:
        sc = DgScenario(R.scenario([R.straight(1, (-40, -2), (40, -2), r=2.5, n=9), R.straight(2, (40, 2), (-40, 2), r=2.5, n=9)]),
                        [StaticObstacle(s) for s in K.obstacle_shapes(c, c.int(0, 3), 8)])
    w = K.world(c, n=c.int(1, 5), spread=c.pick([4, 8]), missions=0.0, after=D(100), scenario=sc, max_steps=(8, 25), record=False,
                modes=("fresh", "const"))
    goals = {}
    for p in w.order:
        k = c.rng.random()
        x0 = w.init_specs[p].x0
        if k < 0.35:
            a, b = x0.x + c.u(-6, 3), x0.y + c.u(-6, 3)
            goals[p] = BoxGoal([a, a + c.u(1, 4), b, b + c.u(1, 4)], {"of": p})
        elif k < 0.55:
            lane, pts, _, _ = R.lane(c, n=6, ds=2.0, start=(x0.x, x0.y, c.ang()))
            goals[p] = RefLaneGoal(lane, goal_progress=c.u(1, 8))
    w.ctx.missions = goals
    seed = c.int(0, 10**6)
    for p in w.order:
        old = w.ctx.players[p]
        ag = Meddler(w.tr, p, old.policy, None)
        ag.count = lambda: c.count("reactions")
        ag.seen = lambda k: c.count("looks at its own " + k)
        if p in what:
            ag.vandal = Vandal(c, p, what[p], seed)
        w.ctx.players[p] = ag
    return w


def fingerprint(ctx):
    out = [o.shape.wkb_hex for o in ctx.dg_scenario.static_obstacles]
    out.append(len(ctx.dg_scenario.static_obstacles))
    if ctx.dg_scenario.scenario is not None:
        for l in ctx.dg_scenario.scenario.lanelet_network.lanelets:
            out.append((l.lanelet_id, l.left_vertices.tobytes(), l.right_vertices.tobytes(), l.center_vertices.tobytes()))
    for p, g in sorted(ctx.missions.items()):
        out.append((p, repr(getattr(g, "lim", None)), repr(getattr(g, "tag", None))))
        lane = getattr(g, "ref_lane", None)
        if lane is not None:
            out += [(tuple(cp.q.p), cp.q.theta, cp.r) for cp in lane.control_points]
    return out


def case(c):
    kinds = ["goal", "scenario", "obs", "cmds"]
    a = build(clone(c), {})
    names = a.order
    pick = random.Random(c.index * 7919 + c.seed)
    sel = pick.sample(names, pick.randint(1, len(names)))
    what = {p: pick.sample(kinds, pick.randint(1, 4)) for p in sel}
    b = build(clone(c), what)
    for w in (a, b):
        # whoever leaves its own copy alone bases its commands on it
        for p in names:
            w.ctx.players[p].looks_at = [k for k in ("scenario", "goal") if k not in what.get(p, ())]
    fa = fingerprint(a.ctx)
    c.eq(fingerprint(b.ctx), fa, "harness: the two worlds differ")
    a.run()
    b.run()
    c.note(vandals=what)
    c.eq(fingerprint(a.ctx), fa, "the scenario or the missions were modified by a run with well behaved agents")
    c.eq(fingerprint(b.ctx), fa, "agents modified the scenario or the missions of the simulation", vandals=what)
    d = K.first_difference(K.digest(a.ctx, extras=False), K.digest(b.ctx, extras=False))
    c.true(d is None, "agents altered the course or the record of the simulation other than by commands", vandals=what, difference=d)
    c.count("pairs of runs")
    for p in sel:
        c.situation("+".join(sorted(what[p])), "alone" if len(names) == 1 else "others", "road" if a.ctx.dg_scenario.scenario else "empty")
    # what the log hands out belongs to the reader
    log, p = b.ctx.log, pick.choice(names)
    st = b.ctx.models[p].get_state()
    spoil(c, b.ctx.models[p].get_state(), pick)
    c.true(b.ctx.models[p].get_state() == st, "the state handed out by a model is its physical state")


FAMILIES = [("vandals", case, 120, 4000)]
