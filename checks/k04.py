"""K04: the lane follower stays on its lane and obeys its limits."""
import math
from dataclasses import fields, replace
from decimal import Decimal as D

import numpy as np
from frozendict import frozendict

from vlib import roads as R
from vlib.core import rot, wrap
from vlib.curve import Curve
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.controllers.speed import SpeedBehavior, SpeedBehaviorParam
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations, SimObservations, SimParameters

ID = "K04"
RULE = ("distinct (vehicle, curvature of the lane, command period, default or supplied behaviour and tracker, what happens on the road) classes of closed-loop runs "
        "whose lane offset, progress, speed and commands were monitored at every step")
REQUIRE = {"steps monitored": 5000, "commands monitored": 4000, "lanes driven": 30, "nominal speed reached": 25, "emergencies": 12, "stayed stopped": 12, "yields": 8,
           "anew": 15, "supplied": 12, "in traffic": 4, "sights": 150}
MIN_SITUATIONS = 30
CPU_LIMIT = 300


def vehicle(c, kinds=("car", "truck", "bicycle")):
    k = c.pick(kinds)
    g = {"car": VehicleGeometry.default_car, "truck": VehicleGeometry.default_truck, "bicycle": VehicleGeometry.default_bicycle}[k]()
    p = {"car": VehicleParameters.default_car, "truck": VehicleParameters.default_truck, "bicycle": VehicleParameters.default_bicycle}[k]()
    return k, g, p


def road(c, kmax=0.035, n=None, ds=None):
    pts, ths = R.centerline(c, n=n or c.int(36, 44), ds=ds or c.u(2.6, 3.2), kmax=c.pick([0.005, 0.02, kmax]), straight=c.chance(0.2), uniform=c.chance(0.7))
    return pts, ths, np.full(len(pts), 2.0)


def start(c, cv, at=1.0, v=None):
    q = cv.at(at)
    off, dth = c.u(-0.8, 0.8), c.u(-0.2, 0.2)
    return VehicleState(x=q[0] - off * math.sin(q[2]), y=q[1] + off * math.cos(q[2]), psi=q[2] + dth, vx=c.u(0, 9) if v is None else v, delta=0.0)


def behaviour(c):
    """(SpeedBehavior or None, nominal speed)"""
    if c.chance(0.5):
        return None, 40 / 3.6
    b = SpeedBehavior()
    b.params = SpeedBehaviorParam(nominal_speed=c.u(3, 11))
    return b, b.params.nominal_speed


class LaneMeter:
    """offset and progress along a lane, followed locally"""

    def __init__(self, cv):
        self.cv, self.b = cv, None

    def __call__(self, s):
        p = np.array([s.x, s.y])
        lo, hi = (None, None) if self.b is None else (self.b - 3, self.b + 3)
        b, _ = self.cv.closest(p, lo, hi, k=4)
        self.b = b
        q = self.cv.at(b)
        return self.cv.s(b), -(s.x - q[0]) * math.sin(q[2]) + (s.y - q[1]) * math.cos(q[2]), wrap(s.psi - q[2])


def limits(c, u, p, **kw):
    c.true(isinstance(u, VehicleCommands), "commands are those of a vehicle")
    c.le(u.acc, p.acc_limits[1] + 1e-9, "acceleration requested within the vehicle's limits", **kw)
    c.le(p.acc_limits[0] - 1e-9, u.acc, "deceleration requested within the vehicle's limits", **kw)
    c.le(abs(u.ddelta), p.ddelta_max + 1e-9, "steering rate requested within the vehicle's limits", **kw)
    c.count("commands monitored")


def free_road(c):
    kind, g, p = vehicle(c)
    pts, ths, rs = road(c)
    cv = Curve(pts, ths, rs)
    b, nominal = behaviour(c)
    tracker = None
    if c.chance(0.4):
        tracker = PurePursuit(PurePursuitParam(look_ahead_minmax=(c.u(3, 4), c.u(10, 30)), k_lookahead=c.u(0.7, 1.0), length=g.wheelbase, lr=g.lr))
        if c.chance(0.5):  # it has followed another lane before
            other = road(c)
            tracker.update_path(R.dg_lane(*other))
            c.count("used trackers")
    x0 = start(c, cv, v=c.u(0, nominal))
    dtc = c.pick([D("0.1"), D("0.1"), D("0.05"), D("0.2")])
    dt = D("0.05")
    dyn = kind != "truck" and c.chance(0.2) and kind == "car"
    m = VehicleModelDyn.default_car(VehicleStateDyn(x=x0.x, y=x0.y, psi=x0.psi, vx=x0.vx, delta=0.0)) if dyn else VehicleModel(x0, g, p)
    if dyn:
        g, p = m.vg, m.vp
    shows = c.chance(0.4)
    agent = LFAgent(R.dg_lane(pts, ths, rs), p, g, speed_behavior=b, pure_pursuit=tracker, return_extra=shows)
    seconds = min(11.0, (cv.L - 25) / nominal + 1)
    ctx = SimContext(dg_scenario=DgScenario(), models={"Ego": m}, players={"Ego": agent}, missions={},
                     param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=D(str(round(seconds, 1))), sim_time_after_collision=D(1)))
    Simulator().run(ctx)
    log = ctx.log["Ego"]
    meter = LaneMeter(cv)
    prev, worst = None, 0.0
    kmax = max(abs(f) / l for (_, f), l in zip(cv.tw, cv.lengths))
    kw = dict(vehicle=kind, nominal=nominal, start=x0, curvature=kmax, period=dtc)
    for t, s in log.states:
        along, off, dth = meter(s)
        c.le(abs(off), 1.7, "stays within the lane", at=t, **kw)
        c.le(abs(dth), 1.0, "drives along the lane", at=t, **kw)
        if prev is not None and s.vx > 0.05 and prev[1].vx > 0.05:
            c.le(prev[0] - 1e-6, along, "progress along the lane", at=t, **kw)
        if along > cv.s(1.0) + 40:
            c.le(abs(off), 0.9, "converges to the centre of the lane", at=t, **kw)
        c.le(s.vx, max(nominal, x0.vx) + 0.6, "not faster than the nominal speed", at=t, **kw)
        c.le(-1e-6, s.vx, "never drives backwards", at=t, **kw)
        c.count("steps monitored")
        prev = (along, s)
    for t, u in log.commands:
        limits(c, u, p, at=t, **kw)
    if not shows:
        c.true(all(not v for v in log.extra.values), "nothing to draw unless asked for", got=log.extra.values[:1])
    else:
        c.eq(list(log.extra.timestamps), list(log.commands.timestamps), "something to draw at every poll")
        for t, v in list(log.extra)[:: 3]:
            s = log.states.at(t)
            (tr, _), = v
            a, z = [np.array([x.x, x.y]) for x in tr.values]
            d, h = a - [s.x, s.y], np.array([math.cos(s.psi), math.sin(s.psi)])
            c.close(d[0] * h[1] - d[1] * h[0], 0.0, "the line of sight begins on the axis of the vehicle", atol=1e-6, at=t, **kw)
            c.true(-g.length < d @ h < 1e-9, "the line of sight begins at the rear of the vehicle", at=t, distance=float(d @ h), **kw)
            q = cv.at(cv.closest(z)[0])
            c.close(z, q[:2], "the line of sight ends on the centre of the lane", atol=0.02, at=t, **kw)
            c.count("sights")
    if seconds > 6:
        c.close(prev[1].vx, nominal, "reaches the nominal speed on a free road", atol=0.35, **kw)
        c.le(min(cv.L, cv.s(1.0) + 0.5 * nominal * (seconds - 2)), prev[0], "gets along its lane", **kw)
        c.count("nominal speed reached")
    c.count("lanes driven")
    c.situation("free", kind, "dynamic" if dyn else "kinematic", "curved" if kmax > 0.015 else "straight", dtc, "own behaviour" if b else "default", "own tracker" if tracker else "default")


# ------------------------------------------------------------------ staged traffic
class Stage:
    """drives a vehicle by an agent, the other road users being staged"""

    def __init__(self, c, agent, m, me="Ego", dt=D("0.1")):
        self.c, self.agent, self.m, self.me, self.dt, self.t = c, agent, m, me, dt, D(0)
        agent.on_episode_init(InitSimObservations(my_name=me, seed=0, dg_scenario=DgScenario(), goal=None))

    def step(self, others=()):
        s = self.m.get_state()
        obs = {self.me: PlayerObservations(state=s, occupancy=self.m.get_footprint())}
        for i, (x, y, th, v) in enumerate(others):
            p = rot(s.psi) @ [x, y] + [s.x, s.y]
            obs[f"O{i}"] = PlayerObservations(state=VehicleState(x=float(p[0]), y=float(p[1]), psi=s.psi + th, vx=v, delta=0.0), occupancy=self.m.get_footprint())
        u = self.agent.get_commands(SimObservations(players=frozendict(obs), time=self.t))
        limits(self.c, u, self.m.vp, at=self.t)
        self.m.update(u, self.dt)
        self.t += self.dt
        self.c.count("steps monitored")
        return u


def long_road(c):
    pts, ths, rs = road(c, kmax=0.02, n=60, ds=3.0)
    return pts, ths, rs, Curve(pts, ths, rs)


DANGER = {"left": (4.0, 2.0, -math.pi / 2, 4.0), "oncoming": (9.0, 0.3, math.pi, 6.0)}


def emergency(c):
    kind, g, p = vehicle(c)
    pts, ths, rs, cv = long_road(c)
    b, nominal = behaviour(c)
    st = Stage(c, LFAgent(R.dg_lane(pts, ths, rs), p, g, speed_behavior=b), VehicleModel(start(c, cv, v=c.u(3, 8)), g, p))
    for _ in range(c.int(0, 25)):
        st.step()
    what = c.pick(sorted(DANGER))
    n = c.int(1, 4)
    for _ in range(n):
        u = st.step([DANGER[what]])
    v = st.m.get_state().vx
    meter = LaneMeter(cv)
    low = v
    for i in range(90):
        more = [DANGER[what]] if c.chance(0.05) else [(20.0, -5.0, 0.3, 5.0)] if c.chance(0.1) else []
        st.step(more)
        s = st.m.get_state()
        c.le(s.vx, low + 0.3, "an emergency only ever slows down", at=st.t, kind=kind, what=what)
        low = min(low, s.vx)
        if i > 60:
            c.le(abs(s.vx), 0.25, "stays stopped after an emergency", at=st.t, kind=kind, what=what)
        if abs(s.vx) > 0.5:
            c.le(abs(meter(s)[1]), 1.9, "stays on the lane while stopping", at=st.t, kind=kind)
    c.count("emergencies")
    c.count("stayed stopped")
    c.situation("emergency", kind, what, "own behaviour" if b else "default")


def yields(c):
    kind, g, p = vehicle(c)
    pts, ths, rs, cv = long_road(c)
    b, nominal = behaviour(c)
    v0 = c.u(3, 8)
    st = Stage(c, LFAgent(R.dg_lane(pts, ths, rs), p, g, speed_behavior=b), VehicleModel(start(c, cv, v=v0), g, p))
    for _ in range(c.int(0, 20)):
        st.step()
    v = st.m.get_state().vx
    for _ in range(12):
        st.step([(4.0, -3.0, math.pi / 2, 4.0)])
    w = st.m.get_state().vx
    c.le(w, max(0.25, v - 1.5), "slows down while having to yield", before=v, after=w, kind=kind)
    for _ in range(85):
        st.step()
    c.close(st.m.get_state().vx, nominal, "drives on after yielding", atol=0.5, kind=kind)
    c.count("yields")
    c.situation("yields", kind, "own behaviour" if b else "default")


def anew(c):
    """a restarted agent against a fresh one"""
    kind, g, p = vehicle(c)
    pts, ths, rs, cv = long_road(c)
    lane = R.dg_lane(pts, ths, rs)
    make = lambda: LFAgent(lane, p, g)
    used = make()
    m = VehicleModel(start(c, cv), g, p)
    st = Stage(c, used, m, me=c.pick(["Ego", "former"]))
    how = c.pick(["emergency", "yield", "free"])
    for i in range(c.int(5, 40)):
        st.step([] if how == "free" or i < 4 else [DANGER["left"] if how == "emergency" else (4.0, -3.0, math.pi / 2, 4.0)])
    x0 = start(c, cv, at=c.u(0.5, 10))
    script = [[] if c.chance(0.7) else [c.pick([(4.0, -3.0, math.pi / 2, 4.0), (8.0, 0.2, 0.1, 1.0), (30.0, 4.0, 1.0, 3.0)])] for _ in range(30)]
    a, b = Stage(c, used, VehicleModel(replace(x0), g, p)), Stage(c, make(), VehicleModel(replace(x0), g, p))
    for i, o in enumerate(script):
        u, w = a.step(o), b.step(o)
        c.eq((u.acc, u.ddelta, u.lights), (w.acc, w.ddelta, w.lights), "an agent started anew behaves as a fresh one", step=i, after=how)
    c.count("anew")
    c.situation("anew", kind, how)


class ConstantBehaviour(SpeedBehavior):
    def __init__(self, v):
        super().__init__()
        self.v, self.asked, self.saw = v, 0, None

    def update_observations(self, agents):
        self.saw = set(agents)
        super().update_observations(agents)

    def get_speed_ref(self, at):
        self.asked += 1
        self.at = at
        return self.v, False


class ConstantTracker(PurePursuit):
    def __init__(self, delta):
        super().__init__()
        self.delta, self.asked = delta, 0

    def get_desired_steering(self):
        self.asked += 1
        return self.delta


def supplied(c):
    kind, g, p = vehicle(c)
    pts, ths, rs, cv = long_road(c)
    v, delta = c.u(1, 7), c.u(-0.8, 0.8) * p.delta_max
    b = ConstantBehaviour(v) if c.chance(0.7) else None
    t = ConstantTracker(delta) if b is None or c.chance(0.7) else None
    st = Stage(c, LFAgent(R.dg_lane(pts, ths, rs), p, g, speed_behavior=b, pure_pursuit=t), VehicleModel(start(c, cv, v=c.u(1, 7)), g, p))
    n = 70
    meter = LaneMeter(cv)
    for _ in range(n):
        before = st.t
        st.step([(60.0, 8.0, 0.3, 2.0)])
        if b is not None:
            c.eq(b.saw, {"Ego", "O0"}, "the supplied behaviour is told about everybody")
            c.eq(float(b.at), float(before), "the supplied behaviour is told the time")
            c.eq(b.my_name, "Ego", "the supplied behaviour is told whom it serves")
        if t is None:
            c.le(abs(meter(st.m.get_state())[1]), 1.7, "stays within the lane")
    s = st.m.get_state()
    if b is not None:
        c.true(b.asked >= n, "the supplied behaviour is asked each time")
        c.close(s.vx, v, "the supplied behaviour sets the speed", atol=0.3)
    if t is not None:
        c.true(t.asked >= n, "the supplied tracker is asked each time")
        c.close(s.delta, delta, "the supplied tracker sets the steering", atol=0.05)
    c.count("supplied")
    c.situation("supplied", kind, "behaviour" if b else "", "tracker" if t else "")


def traffic(c):
    """several lane followers at once"""
    models, players, ps = {}, {}, {}
    curves = {}
    centre = (c.u(-20, 20), c.u(-20, 20))
    for i in range(c.int(2, 4)):
        a = c.ang()
        st = (centre[0] - c.u(20, 40) * math.cos(a), centre[1] - c.u(20, 40) * math.sin(a), a)
        pts, ths = R.centerline(c, n=30, ds=3.0, kmax=0.01, start=st)
        rs = np.full(30, 2.0)
        kind, g, p = vehicle(c)
        n = f"P{i}"
        curves[n] = Curve(pts, ths, rs)
        models[n] = VehicleModel(start(c, curves[n]), g, p)
        if any(models[n].get_footprint().distance(o.get_footprint()) < 1 for k, o in models.items() if k != n):
            return
        players[n] = LFAgent(R.dg_lane(pts, ths, rs), p, g)
        ps[n] = p
    ctx = SimContext(dg_scenario=DgScenario(), models=models, players=players, missions={},
                     param=SimParameters(dt=D("0.05"), dt_commands=D("0.1"), max_sim_time=D(5), sim_time_after_collision=D(0)))
    Simulator().run(ctx)
    for n in players:
        meter = LaneMeter(curves[n])
        until = min([r.at_time for r in ctx.collision_reports], default=D(100))
        for t, s in ctx.log[n].states:
            if t < until:
                c.le(abs(meter(s)[1]), 1.8, "stays within the lane in traffic", at=t)
                c.le(s.vx, 40 / 3.6 + 0.6, "not faster than the nominal speed", at=t)
                c.count("steps monitored")
        for t, u in ctx.log[n].commands:
            limits(c, u, ps[n], at=t)
    c.count("in traffic")
    c.situation("traffic", len(players), "collided" if ctx.collision_reports else "safe")


FAMILIES = [("free road", free_road, 48, 700), ("emergency", emergency, 20, 300), ("yields", yields, 14, 200), ("anew", anew, 24, 300), ("supplied", supplied, 20, 300), ("traffic", traffic, 12, 150)]
