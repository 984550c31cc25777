"""Recording simulation worlds: real simulator, real or toy models, recording agents, sensors, goals."""
from __future__ import annotations

import math
from collections import defaultdict
from copy import deepcopy
from dataclasses import dataclass, field, fields, replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import rotate, translate
from shapely.geometry import LineString, LinearRing, MultiPolygon, Point, Polygon, box

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.sim.agents.agent import Agent, NPAgent, PolicyAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, GhostObsFilter, IdObsFilter, ObsFilter
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import SimModel, SimParameters
from dg_commons.sim.models.model_structures import ModelParameters

from vlib import world as W


# ------------------------------------------------------------------ toy model (cheap, exactly integrated)
@dataclass(unsafe_hash=True, eq=True, order=True)
class ToyState:
    x: float
    y: float
    psi: float
    vx: float = 0.0
    vy: float = 0.0
    dpsi: float = 0.0

    def __add__(self, o):
        if type(o) is not type(self):
            raise NotImplementedError
        return ToyState(*(getattr(self, f.name) + getattr(o, f.name) for f in fields(self)))

    __radd__ = __add__

    def __sub__(self, o):
        return self + o * -1.0

    def __mul__(self, k):
        return ToyState(*(getattr(self, f.name) * k for f in fields(self)))

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1 / k)


@dataclass(unsafe_hash=True, eq=True, order=True)
class ToyCommands:
    ax: float
    ay: float = 0.0
    aw: float = 0.0


class ToyModel(SimModel):
    """Point-integrated rigid body whose velocities are global"""

    def __init__(self, x0, shape: Polygon, g: ObstacleGeometry, p: ModelParameters):
        self._state, self.shape, self.g, self.p = x0, shape, g, p
        self.XT = ToyState

    def update(self, commands, dt):
        s, h = self._state, float(dt)
        self._state = ToyState(
            s.x + h * s.vx, s.y + h * s.vy, s.psi + h * s.dpsi,
            s.vx + h * commands.ax, s.vy + h * commands.ay, s.dpsi + h * commands.aw)

    def get_state(self):
        return replace(self._state)

    def set_state(self, new_state):
        self._state = new_state

    def get_pose(self):
        return W_se2(self._state)

    def get_footprint(self):
        s = self._state
        return translate(rotate(self.shape, s.psi, origin=(0, 0), use_radians=True), s.x, s.y)

    def get_mesh(self):
        from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE

        return {IMPACT_EVERYWHERE: self.get_footprint()}

    def get_velocity(self, in_model_frame):
        s = self._state
        v = np.array([s.vx, s.vy])
        if in_model_frame:
            v = _rot(-s.psi) @ v
        return v, s.dpsi

    def set_velocity(self, vel, omega, in_model_frame):
        if in_model_frame:
            vel = _rot(self._state.psi) @ np.asarray(vel)
        self._state.vx, self._state.vy, self._state.dpsi = float(vel[0]), float(vel[1]), float(omega)

    @property
    def model_geometry(self):
        return self.g

    @property
    def model_type(self):
        return "toy"

    @property
    def model_params(self):
        return self.p

    def get_extra_collision_friction_acc(self):
        return 0.0, 0.0, 0.0


def _rot(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s], [s, c]])


def W_se2(s):
    from vlib.core import se2

    return se2(s.x, s.y, s.psi)


# ------------------------------------------------------------------ recording
@dataclass
class Ev:
    kind: str
    who: str
    t: D
    a: object = None
    b: object = None
    c: object = None


class Trace:
    def __init__(self):
        self.ev: list[Ev] = []
        self.ctx = None
        self.muted = False
        self.hook = None  # called with every event (schedulers, yields)

    def add(self, kind, who, a=None, b=None, c=None):
        if self.muted:
            return
        e = Ev(kind, who, D(self.ctx.time) if self.ctx is not None else None, a, b, c)
        self.ev.append(e)
        if self.hook is not None:
            self.hook(e)

    def of(self, kind, who=None):
        return [e for e in self.ev if e.kind == kind and (who is None or e.who == who)]


_classes: dict = {}


def _recording(cls):
    """A subclass that records what the simulator does with the model"""

    def update(self, commands, dt):
        tr = self._rec
        b, fb = deepcopy(cls.get_state(self)), cls.get_footprint(self)
        cmd = deepcopy(commands)
        tr.add("advance", self._rec_name)
        cls.update(self, commands, dt)
        tr.add("update", self._rec_name, (b, fb), (cmd, dt), (deepcopy(cls.get_state(self)), cls.get_footprint(self)))

    def set_velocity(self, vel, omega, in_model_frame):
        b = deepcopy(cls.get_state(self))
        cls.set_velocity(self, vel, omega, in_model_frame)
        self._rec.add("setvel", self._rec_name, b, deepcopy(cls.get_state(self)))

    return type("Rec" + cls.__name__, (cls,), {"update": update, "set_velocity": set_velocity})


def record_model(m, name, tr: Trace):
    cls = type(m)
    if cls not in _classes:
        _classes[cls] = _recording(cls)
    m.__class__ = _classes[cls]
    m._rec, m._rec_name = tr, name
    return m


class RecAgent(Agent):
    """Runs a policy (function of agent, observations -> commands) and records every call"""

    def __init__(self, tr: Trace, name, policy, extra=None, inner=None):
        self.tr, self.name, self.policy, self.extra, self.inner = tr, name, policy, extra, inner
        self.n = 0

    def on_episode_init(self, init):
        self.n = 0
        self.init = init
        self.tr.add("init", self.name, init)
        if self.inner is not None:
            self.inner.on_episode_init(init)

    def get_commands(self, obs):
        self.tr.add("poll", self.name, deepcopy_obs(obs))
        u = self.inner.get_commands(obs) if self.inner is not None else self.policy(self, obs)
        self.n += 1
        self.tr.add("reply", self.name, deepcopy(u))
        return u

    def on_get_extra(self):
        x = self.extra(self) if self.extra is not None else None
        self.tr.add("extra", self.name, deepcopy(x))
        return x


def deepcopy_obs(obs):
    return (obs.time, {p: (deepcopy(o.state), o.occupancy) for p, o in obs.players.items()})


class RecSensor(ObsFilter):
    def __init__(self, tr: Trace, name, inner: ObsFilter):
        self.tr, self.name, self.inner = tr, name, inner

    def sense(self, scenario, full_obs, pov):
        self.tr.add("sense", self.name, deepcopy_obs(full_obs), (scenario, pov))
        out = self.inner.sense(scenario, full_obs, pov)
        self.tr.add("sensed", self.name, deepcopy_obs(out))
        return out


class DropSensor(ObsFilter):
    """Sees a time dependent subset of the other players"""

    def __init__(self, k):
        self.k = k

    def sense(self, scenario, full_obs, pov):
        n = int(full_obs.time * 20)
        keep = {p: o for i, (p, o) in enumerate(full_obs.players.items()) if p == pov or (i + n) % self.k}
        return replace(full_obs, players=type(full_obs.players)(keep))


# ------------------------------------------------------------------ goals
@dataclass(frozen=True)
class ToyGoal(PlanningGoal):
    """kind: 'time' (from a certain time on), 'line' (beyond a line), 'moving' (within a moving disc),
    'blink' (only at some times), 'never', 'now'"""

    kind: str
    a: float = 0.0
    b: float = 0.0
    c: float = 0.0
    tag: list = field(default_factory=list, hash=False, compare=False)

    def is_fulfilled(self, state, at=0):
        t = float(at)
        if self.kind == "time":
            return t >= self.a - 1e-12
        if self.kind == "line":
            return state.x * math.cos(self.a) + state.y * math.sin(self.a) > self.b
        if self.kind == "moving":
            return math.hypot(state.x - self.a - self.c * t, state.y - self.b) < 2.5
        if self.kind == "blink":
            return int(round(t * 100)) % int(self.a) == int(self.b) and t > 0
        if self.kind == "now":
            return True
        return False

    def get_plottable_geometry(self, at=0):
        return Point(0, 0)

    @property
    def is_static(self):
        return self.kind in ("line", "never", "now")


# ------------------------------------------------------------------ worlds
@dataclass
class World:
    ctx: SimContext
    tr: Trace
    names: list
    t0: D
    init_goals: dict
    init_specs: dict
    ran: bool = False

    def run(self, sim=None):
        sim = Simulator() if sim is None else sim
        sim.run(self.ctx)
        self.ran = True
        return self


DTS = [D("0.05"), D("0.1"), D("0.02"), D("0.03"), D("0.07"), D("0.125"), D("0.2")]


def toy_spec(c, at, speed=4.0, size=(0.5, 1.6)):
    shape = W.random_polygon(c, *size, convex=True)
    shape = translate(shape, -shape.centroid.x, -shape.centroid.y)
    g = ObstacleGeometry(m=c.u(1, 50), Iz=c.u(1, 50), e=c.u(0.1, 0.9))
    p = ModelParameters(vx_limits=(-50, 50), acc_limits=(-20, 20))
    x0 = ToyState(*at, c.u(-speed, speed), c.u(-speed, speed), c.u(-1, 1))
    return W.Spec("toy", x0, g, p, shape)


def build_model(s: W.Spec):
    if s.kind == "toy":
        return ToyModel(replace(s.x0), s.shape, s.g, s.p)
    return s.build()


def rnd_command(c_or_rng, s: W.Spec):
    r = c_or_rng
    if s.kind == "toy":
        return ToyCommands(r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-2, 2))
    return W.command(_RngCase(r), s.kind, s.p, scale=0.9)


class _RngCase:
    """Minimal generator interface on a plain random generator"""

    def __init__(self, rng):
        self.rng = rng

    def u(self, a, b):
        return self.rng.uniform(a, b)

    def chance(self, p):
        return self.rng.random() < p

    def sign(self):
        return self.rng.choice((-1, 1))

    def pick(self, s):
        return self.rng.choice(list(s))


def make_policy(seed, s: W.Spec, mode="fresh"):
    """Deterministic command stream; mode 'reuse': one object, modified at every call; 'const'; 'twice': the same object
    returned again and again, unmodified"""
    import random

    def policy(agent, obs, st={}):
        key = agent.n
        if mode == "const":
            return rnd_command(random.Random(seed), s)
        if mode == "reuse":
            if agent.n == 0 or not hasattr(agent, "buf"):
                agent.buf = rnd_command(random.Random(seed), s)
            new = rnd_command(random.Random(seed * 1000 + key), s)
            for f in fields(new):
                if f.name != "idx":
                    setattr(agent.buf, f.name, getattr(new, f.name))
            return agent.buf
        if mode == "twice":
            if not hasattr(agent, "buf2") or key % 3 == 0:
                agent.buf2 = rnd_command(random.Random(seed * 1000 + key), s)
            return agent.buf2
        return rnd_command(random.Random(seed * 1000 + key), s)

    return policy


MANNERS = ("any",) * 9 + ("spin", "rest", "late", "straight")


def calm(s: W.Spec, manner):
    """An initial state that suits the manner of moving"""
    x = s.x0
    stop = {"spin": ("vx", "vy"), "rest": ("vx", "vy", "dpsi"), "late": ("vx", "vy", "dpsi"), "straight": ("dpsi", "delta")}.get(manner, ())
    s.x0 = replace(x, **{f: 0.0 for f in stop if hasattr(x, f)})
    return s


def with_manner(policy, s: W.Spec, manner, late=4):
    """Commands that keep to a manner of moving: turning on the spot, at rest, at rest for some time, not turning"""
    if manner == "any":
        return policy
    if s.kind == "toy":
        none = ToyCommands(0.0, 0.0, 0.0)
    else:
        none = W.zero_command(s.kind)
    fixed = {"spin": ("ax", "ay", "acc", "acc_x", "acc_y", "thrust"), "straight": ("aw", "ddelta", "dpsi", "acc_psi")}.get(manner, ())

    def mannered(agent, obs):
        u = policy(agent, obs)
        if manner == "rest" or manner == "late" and agent.n < late:
            return replace(none)
        for f in fixed:
            if hasattr(u, f):
                setattr(u, f, 0.0)
        if s.kind == "diff" and manner == "spin":
            u.omega_r = -u.omega_l
        elif s.kind == "diff" and manner == "straight":
            u.omega_r = u.omega_l
        return u

    return mannered


def make_extra(kind):
    if kind is None:
        return None
    if kind == "some":
        return lambda ag: None if ag.n % 2 else {"n": ag.n // 6}  # the same one several times in a row
    if kind == "falsy":
        return lambda ag: [(), 0, "", None, []][ag.n % 5]
    return lambda ag: ("extra", ag.n)


def obstacle_shapes(c, n, span):
    out = []
    for _ in range(n):
        k = c.rng.random()
        at = (c.u(-span, span), c.u(-span, span))
        if k < 0.55:
            p = W.random_polygon(c, 0.5, 3.0)
            out.append(translate(rotate(p, c.u(0, 360), origin=(0, 0)), *at))
        elif k < 0.7:
            th = c.ang()
            L = c.u(1, 10)
            out.append(LineString([at, (at[0] + L * math.cos(th), at[1] + L * math.sin(th))]))
        elif k < 0.85:
            pts = [at]
            for _ in range(c.int(2, 4)):
                pts.append((pts[-1][0] + c.u(0.5, 4), pts[-1][1] + c.u(-3, 3)))
            out.append(LineString(pts))
        else:
            p = W.random_polygon(c, 3.0, 8.0)
            out.append(LinearRing([(x + at[0], y + at[1]) for x, y in p.exterior.coords]))
    return out


def world(c, *, n=None, kinds=None, crowded=None, obstacles=None, missions=None, dt=None, dtc=None, max_steps=None,
          sensors=True, t0=None, modes=("fresh", "reuse", "const", "twice"), extras=True, after=None, shuffle=True,
          spread=None, record=True, seed_ctx=None, scenario=None, sizes=None, shapes=None, reshape=None, manners=MANNERS) -> World:
    """A random simulation world. Everything is derived from the case's generator."""
    if n is None:
        n = c.int(1, 6)
        if c.chance(0.05):  # a crowd
            n = c.int(9, 14)
            kinds = ["toy"] if kinds is None else kinds
            max_steps = (6, 15) if max_steps is None else max_steps
            spread = c.pick([8, 30]) if spread is None else spread
    dt = c.pick(DTS) if dt is None else dt
    if dtc is None:
        dtc = c.pick([dt, 2 * dt, 3 * dt, dt * D("1.5"), dt * D("2.3"), D("0.1"), dt / 2, dt * D("0.7"), 7 * dt])
    steps = c.int(8, 40) if max_steps is None else c.int(*max_steps)
    # sometimes the limit is hit exactly, sometimes not
    max_t = dt * steps + (D(0) if c.chance(0.5) else dt * D("0.37"))
    after = c.pick([D(0), dt, 3 * dt, dt * D("2.5"), max_t]) if after is None else after
    t0 = c.pick([D(0), D(0), D(0), D("0.5"), D("1.23")]) if t0 is None else t0
    spread = (c.pick([4, 8, 30]) if spread is None else spread)
    known = ["P1", "P2", "Ego", "a", "b", "zed", "P10", "Q"]
    names = [PlayerName(x) for x in c.rng.sample(known + [f"c{i}" for i in range(n - len(known) + 2)] if n > len(known) else known, n)]
    specs, how = {}, {}
    for p in names:
        k = c.pick(kinds) if kinds is not None else (c.pick(W.KINDS) if c.chance(0.35) else "toy")
        at = (c.u(-spread, spread), c.u(-spread, spread), c.ang())
        specs[p] = toy_spec(c, at, size=c.pick(sizes) if sizes else (0.5, 1.6)) if k == "toy" else W.spec(c, k, at=at)
        how[p] = c.pick(manners)
        calm(specs[p], how[p])
    obst = shapes if shapes is not None else obstacle_shapes(c, c.int(0, 4) if obstacles is None else obstacles, spread + 3)
    obst = [reshape(s) for s in obst] if reshape else obst
    sc = scenario or DgScenario(static_obstacles=[StaticObstacle(s) for s in obst])
    goals = {}
    for p in names:
        if c.chance(0.5 if missions is None else missions):
            k = c.pick(["time", "line", "moving", "never", "blink", "now", "poly"])
            x0 = specs[p].x0
            horizon = float(t0) + float(dt) * steps
            if k == "time":
                goals[p] = ToyGoal("time", a=float(t0 + dt * c.int(0, steps + 2)), tag=[p])
            elif k == "line":
                th = math.atan2(getattr(x0, "vy", 0.0), getattr(x0, "vx", 0.1)) + (0 if specs[p].kind == "toy" else x0.psi)
                b0 = x0.x * math.cos(th) + x0.y * math.sin(th)
                goals[p] = ToyGoal("line", a=th, b=b0 + c.u(0.2, 6), tag=[p])
            elif k == "moving":
                goals[p] = ToyGoal("moving", a=x0.x + c.u(-6, 6), b=x0.y + c.u(-2, 2), c=c.u(-4, 4), tag=[p])
            elif k == "blink":
                goals[p] = ToyGoal("blink", a=c.int(20, 90), b=c.int(0, 19), tag=[p])
            elif k == "poly":
                goals[p] = PolygonGoal(Point(x0.x + c.u(-4, 4), x0.y + c.u(-4, 4)).buffer(c.u(1, 3)))
            else:
                goals[p] = ToyGoal(k, tag=[p])
    tr = Trace()
    models, players, sens = {}, {}, {}
    for p in names:
        m = build_model(specs[p])
        if record:
            record_model(m, p, tr)
        models[p] = m
        ek = c.pick([None, "some", "all", "falsy"]) if extras else None
        policy = with_manner(make_policy(c.int(0, 10**6), specs[p], c.pick(modes)), specs[p], how[p], c.int(2, 9))
        players[p] = RecAgent(tr, p, policy, make_extra(ek))
        players[p].extra_kind = ek
    order = list(names)
    if shuffle:
        c.rng.shuffle(order)
    players = {p: players[p] for p in order}
    if sensors:
        for p in names:
            k = c.rng.random()
            if k < 0.5:
                s = IdObsFilter()
            elif k < 0.65:
                s = DropSensor(c.int(2, 4))
            elif k < 0.8:
                s = GhostObsFilter(IdObsFilter(), c.pick(names), further_than=c.u(0, 8))
            else:
                s = DelayedObsFilter(IdObsFilter(), dt * c.int(0, 5))
            sens[p] = RecSensor(tr, p, s)
    kw = {"sensors": sens} if sensors else {}
    ctx = SimContext(
        dg_scenario=sc, models=models, players=players, missions=goals, time=t0,
        param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=t0 + max_t, sim_time_after_collision=after),
        seed=c.int(0, 99) if seed_ctx is None else seed_ctx, **kw)
    tr.ctx = ctx
    c.note(dt=dt, dtc=dtc, t0=t0, max_t=max_t, after=after, players={p: specs[p].kind for p in order},
           missions={p: getattr(g, "kind", "poly") for p, g in goals.items()}, obstacles=[s.wkt[:80] for s in obst])
    w = World(ctx, tr, names, t0, deepcopy(goals), specs)
    w.order, w.how = order, how
    return w


# ------------------------------------------------------------------ digests
def state_repr(x):
    return type(x).__name__.replace("Rec", "") + repr({n: (float(getattr(x, n)).hex()) for n in W.comps(x)}) + \
        (str(getattr(x, "lights")) if hasattr(x, "lights") else "")


def digest(ctx, extras=True):
    """Everything observable about the outcome of a simulation (computation times excluded)"""
    out = [("time", str(ctx.time), str(ctx.first_collision_ts), ctx.sim_terminated, tuple(ctx.players))]
    for p in ctx.models:
        lg = ctx.log[p]
        out.append((p, "states", tuple((str(t), state_repr(s)) for t, s in lg.states)))
        out.append((p, "commands", tuple((str(t), state_repr(s)) for t, s in lg.commands)))
        out.append((p, "info", tuple(str(t) for t in lg.info.timestamps)))
        if extras:
            out.append((p, "extra", tuple((str(t), repr(s)) for t, s in lg.extra)))
        m = ctx.models[p]
        out.append((p, "final", state_repr(m.get_state()), m.has_collided))
    for r in ctx.collision_reports:
        out.append(("report", str(r.at_time), tuple(r.players), report_repr(r)))
    return out


def report_repr(r):
    def pl(x):
        if x is None:
            return None
        f = lambda v: tuple(float(z).hex() for z in v)
        return (
            tuple((str(l), s.wkb_hex) for l, s in x.locations), bool(x.at_fault), x.footprint.wkb_hex,
            f(x.velocity[0]), float(x.velocity[1]).hex(), f(x.velocity_after[0]), float(x.velocity_after[1]).hex(),
            float(x.energy_delta).hex())

    return (None if r.impact_point is None else r.impact_point.wkb_hex,
            None if r.impact_normal is None else tuple(float(z).hex() for z in r.impact_normal),
            tuple((p, pl(x)) for p, x in r.players.items()))


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            sx, sy = repr(x), repr(y)
            i = next((k for k in range(min(len(sx), len(sy))) if sx[k] != sy[k]), min(len(sx), len(sy)))
            return sx[:60] + " ... " + sx[max(0, i - 60):i + 120], sy[max(0, i - 60):i + 120]
    if len(a) != len(b):
        return f"{len(a)} vs {len(b)} entries", ""
    return None


def lf_world(c, n=None, steps=(10, 30), record=False):
    """Lane following cars on synthetic (crossing, merging, following) lanes, optionally with a pedestrian or toys around"""
    from dg_commons.sim.agents.lane_follower import LFAgent
    from vlib import roads as R

    n = c.int(1, 4) if n is None else n
    dt = c.pick([D("0.05"), D("0.1")])
    dtc = c.pick([dt, 2 * dt])
    lanelets, lanes = [], []
    for i in range(c.int(1, n)):
        th = c.ang()
        off = c.u(-3, 3)
        start = (-40 * math.cos(th) - off * math.sin(th), -40 * math.sin(th) + off * math.cos(th), th)
        pts, ths = R.centerline(c, n=25, ds=4.0, kmax=0.01, start=start, uniform=True)
        rs = R.widths(c, len(pts), 1.6, 2.4)
        lanelets.append(R.lanelet(100 + i, pts, ths, rs))
        lanes.append(R.dg_lane(pts, ths, rs))
    sc = DgScenario(R.scenario(lanelets), [StaticObstacle(s) for s in obstacle_shapes(c, c.int(0, 2), 30)],
                    use_road_boundaries=c.chance(0.2))
    tr = Trace()
    models, players, goals, specs = {}, {}, {}, {}
    for i in range(n):
        p = PlayerName(f"L{i}" if c.chance(0.5) else f"car {i}")
        ln = lanes[i % len(lanes)]
        s0 = c.u(2, 60)
        q = ln.center_point(ln.beta_from_along_lane(s0))
        kind = c.pick(("car", "car", "bicycle", "car_dyn"))
        sp = W.spec(c, kind, at=(q[0, 2], q[1, 2], math.atan2(q[1, 0], q[0, 0])), speed=c.u(1, 9))
        sp.x0 = replace(sp.x0, delta=0.0)
        specs[p] = sp
        m = sp.build()
        if record:
            record_model(m, p, tr)
        models[p] = m
        players[p] = LFAgent(ln, sp.p, sp.g, return_extra=c.chance(0.5))
        if c.chance(0.3):
            from dg_commons.sim.goals import RefLaneGoal

            goals[p] = RefLaneGoal(ln, goal_progress=s0 + c.u(2, 20))
    ctx = SimContext(dg_scenario=sc, models=models, players=players, missions=goals,
                     param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=dt * c.int(*steps), sim_time_after_collision=D(1)))
    tr.ctx = ctx
    w = World(ctx, tr, list(models), D(0), dict(goals), specs)
    w.order = list(players)
    return w
