"""R01: what the frames of an animation show, against the log."""
import math
from dataclasses import dataclass, fields, replace
from decimal import Decimal as D

import numpy as np
from shapely.affinity import affine_transform
from shapely.geometry import LineString, Point, Polygon, box

from vlib import film, roads as R, simkit as K, world as W
from hashlib import sha256
from checks.m04 import ROUND, TYRE, outline
from dg_commons import DgSampledSequence, PlayerName, SE2Transform
from dg_commons.planning import Trajectory
from dg_commons.sim.agents import NPAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_animation import create_animation
from dg_commons.sim.simulator_structures import PlayerLog, SimParameters

ID = "R01"
RULE = ("distinct (model kind, phase of the log, lights or flame situation, how the log was made) combinations in frames whose displayed "
        "shapes, labels, wheels, thrusters, flames, lights, goals and trajectories were compared with the log")
REQUIRE = {"frames": 700, "bodies": 1500, "wheels": 1200, "lamps": 1500, "flames": 150, "thrusters": 300, "trajectories": 300,
           "moving goals": 100, "obstacles": 300, "late extras": 3, "focused": 60, "player gone": 60}
MIN_SITUATIONS = 60

WHITE, YELLOW, RED, BRIGHT, ORANGE = (0.9, 0.9, 0.9), (1.0, 1.0, 0.0), (0.5, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 0.5, 0.3)
LIGHTS = ("none", "headlights", "turn_left", "turn_right", "hazard")


def lamps(cmd, acc, t):
    """Acceptable colors (front left, front right, back left, back right) at a time"""
    x = t / 0.4
    idx = {int(round(x + d)) for d in (-1e-6, 0.0, 1e-6)} if abs(x % 1 - 0.5) < 1e-5 else {int(round(x))}
    out = []
    for i in idx:
        on = i % 2 == 0
        fl = fr = YELLOW if cmd == "headlights" else WHITE
        bl = br = RED
        if on and cmd in ("turn_left", "hazard"):
            fl = bl = ORANGE
        if on and cmd in ("turn_right", "hazard"):
            fr = br = ORANGE
        if acc < 0:
            bl, br = (BRIGHT if v == RED else v for v in (bl, br))
        out.append((fl, fr, bl, br))
    return out


@dataclass(frozen=True)
class MovingGoal(PlanningGoal):
    shape: Polygon
    v: tuple

    def is_fulfilled(self, state, at=0):
        return False

    def get_plottable_geometry(self, at=0):
        t = float(at)
        return affine_transform(self.shape, [1, 0, 0, 1, self.v[0] * t, self.v[1] * t])

    @property
    def is_static(self):
        return False


@dataclass(frozen=True)
class ShyGoal(PlanningGoal):
    def is_fulfilled(self, state, at=0):
        return False

    def get_plottable_geometry(self, at=0):
        raise NotImplementedError


def digest(x):
    return sha256(repr(x).encode()).hexdigest()


# ------------------------------------------------------------------ workload
COLORS = ["firebrick", "saddlebrown", "royalblue", "teal", "gold", "olive", (0.2, 0.4, 0.6)]


def some_commands(c, s, n):
    out = []
    for _ in range(n):
        u = W.command(c, s.kind, s.p)
        if hasattr(u, "lights"):
            u = replace(u, lights=c.pick(LIGHTS))
        out.append(u)
    return out


def some_extra(c):
    k = c.rng.random()
    if k < 0.15:
        return []
    out = []
    for _ in range(c.int(1, 3)):
        n = c.int(2, 5) if c.chance(0.95) else c.int(60, 300)
        pts = [(c.u(-20, 20), c.u(-20, 20)) for _ in range(n)]
        if c.chance(0.7):
            tr = Trajectory(timestamps=list(range(n)), values=[VehicleState(x=x, y=y, psi=0, vx=c.u(0, 9), delta=0) for x, y in pts])
        else:
            from dg_commons.sim.models.diff_drive import DiffDriveState

            tr = DgSampledSequence[DiffDriveState](timestamps=list(range(n)), values=[DiffDriveState(x=x, y=y, psi=0) for x, y in pts])
        out.append((tr, c.pick(["gold", "c", (0.1, 0.9, 0.3), None])))
    return out


def made_log(c, s, t0, n, h):
    """A plausible log of one player: regular or irregular sample times"""
    ts = [t0]
    for _ in range(n):
        ts.append(ts[-1] + (h if c.chance(0.7) else h * c.int(1, 4)))
    st = [W.state(c, s.kind, s.p, s.g)]
    for _ in range(n):
        new = W.state(c, s.kind, s.p, s.g)
        # nearby poses, so that interpolation is not arbitrary; any other component
        new = replace(new, x=st[-1].x + c.u(-2, 2), y=st[-1].y + c.u(-2, 2), psi=st[-1].psi + c.u(-0.6, 0.6))
        st.append(new)
    for _ in range(c.pick([0, 0, 1, 1, 2])):  # stands still, or some component does, for a while
        k, m = c.int(0, n), c.int(2, n + 2)
        stuck = c.pick([["x", "y"], ["x", "y", "psi"], ["psi"], ["vx"], ["delta"], ["phi"], ["vx", "x", "y", "psi"]])
        stuck = [f for f in stuck if hasattr(st[0], f)]
        vals = {f: (0.0 if f in ("vx", "delta", "phi") and c.chance(0.7) else getattr(st[k], f)) for f in stuck}
        st = [replace(x, **vals) if k <= i < k + m else x for i, x in enumerate(st)]
    if s.kind in ("rocket", "spaceship") and c.chance(0.4):  # runs out of fuel
        k = c.int(0, n)
        st = [replace(x, m=s.p.m_v) if i >= k else x for i, x in enumerate(st)]
    tc = [t for i, t in enumerate(ts[:-1]) if i == 0 or c.chance(0.5)]
    cs = some_commands(c, s, len(tc))
    first = c.pick([0, 0, 1, 2])
    te = [t for t in tc[first:] if c.chance(0.8)]
    ex = [some_extra(c) for _ in te] if c.chance(0.7) else None
    if ex is None:
        te, ex = [], []
    return PlayerLog(
        states=DgSampledSequence(timestamps=ts, values=st), commands=DgSampledSequence(timestamps=tc, values=cs),
        extra=DgSampledSequence(timestamps=te, values=ex), info=DgSampledSequence(timestamps=tc, values=[0.1] * len(tc)))


def obstacles(c):
    out = []
    for s in K.obstacle_shapes(c, c.int(0, 3), 25):
        out.append(StaticObstacle(s, ObstacleGeometry.default_static(color=c.pick(COLORS))) if c.chance(0.5) else StaticObstacle(s))
    return out


def goals(c, specs):
    out = {}
    for p, s in specs.items():
        k = c.rng.random()
        at = (s.x0.x + c.u(-9, 9), s.x0.y + c.u(-9, 9))
        if k < 0.25:
            out[p] = PolygonGoal(affine_transform(W.random_polygon(c, 1, 3), [1, 0, 0, 1, *at]))
        elif k < 0.35:
            out[p] = PoseGoal(SE2Transform(np.array(at), c.ang()))
        elif k < 0.6:
            out[p] = MovingGoal(affine_transform(W.random_polygon(c, 1, 3), [1, 0, 0, 1, *at]), (c.u(-2, 2), c.u(-2, 2)))
        elif k < 0.7:
            out[p] = ShyGoal()
    return out


def synthetic(c, kinds, scenario=None, n=None):
    t0 = c.pick([D(0), D(0), D("0.5"), D("1.23"), D("7.1")])
    h = c.pick([D("0.05"), D("0.1"), D("0.03"), D("0.25")])
    names = c.rng.sample(["P1", "P2", "Ego", "a", "b", "zed", "P10", "Q"], len(kinds))
    specs = {}
    for p, k in zip(names, kinds):
        s = W.spec(c, k)
        specs[p] = replace_g(s, c.pick(COLORS))
    sc = scenario or DgScenario(static_obstacles=obstacles(c))
    ctx = SimContext(
        dg_scenario=sc, models={p: s.build() for p, s in specs.items()},
        players={p: NPAgent(DgSampledSequence(timestamps=[0], values=[W.zero_command(s.kind)])) for p, s in specs.items()},
        missions=goals(c, specs), param=SimParameters(), time=t0)
    n = n or c.int(6, 25)
    for i, (p, s) in enumerate(specs.items()):
        ctx.log[p] = made_log(c, s, t0, n if i == 0 else c.int(1, n), h)
    return ctx, specs


def replace_g(s, color):
    return replace(s, g=replace(s.g, color=color))


# ------------------------------------------------------------------ reference
def at(shape, st):
    co, si = math.cos(st.psi), math.sin(st.psi)
    return affine_transform(shape, [co, -si, si, co, st.x, st.y])


def placed(shape, x, y, th):
    co, si = math.cos(th), math.sin(th)
    return affine_transform(shape, [co, -si, si, co, x, y])


def interpolate(lg, t):
    """(state, phase of the log), linear between the samples and constant beyond the last one"""
    ts, vs = [float(x) for x in lg.states.timestamps], lg.states.values
    if t >= ts[-1]:
        return vs[-1], ("over" if t > ts[-1] + 1e-9 else "sample")
    t = max(t, ts[0])
    i = max(k for k, x in enumerate(ts) if x <= t)
    a = (t - ts[i]) / (ts[i + 1] - ts[i])
    kw = {n: (1 - a) * getattr(vs[i], n) + a * getattr(vs[i + 1], n) for n in W.comps(vs[i])}
    return replace(vs[i], **kw), ("sample" if a < 1e-9 else "between")


def held(seq, t, begin=None):
    """Values that may be in force at t (two within rounding of a switching instant)"""
    out = []
    ts = [float(x) for x in seq.timestamps]
    for d in (-1e-9, 1e-9):
        k = [i for i, x in enumerate(ts) if x <= t + d]
        out.append(seq.values[k[-1]] if k else None)
    if begin is not None and abs(t - begin) < 1e-9:
        out[0] = out[1]
    return out[:1] if out[0] is out[1] else out


def body(c, spec):
    if spec.kind == "obstacle":
        return spec.shape
    return outline(c, spec)


def parts(spec, st, u):
    """Further polygons of a player: (shape in the world, color, kind)"""
    g, k = spec.g, spec.kind
    out = []
    if k in W.KIN + W.DYN:
        hw, r = TYRE[g.vehicle_type]
        w = box(-r, -hw, r, hw)
        if g.vehicle_type in ("car", "truck") or "bicycle" not in k:
            pos = [(g.lf, g.w_half, st.delta), (g.lf, -g.w_half, st.delta), (-g.lr, g.w_half, 0), (-g.lr, -g.w_half, 0)]
        else:
            pos = [(g.lf, 0, st.delta), (-g.lr, 0, 0)]
        out += [(at(placed(w, *q), st), "k", "wheels") for q in pos]
    elif k == "diff":
        r, hw = g.wheelradius, g.wheelradius / 3
        out += [(at(placed(box(-r, -hw, r, hw), 0, s * g.wheelbase / 2, 0), st), "k", "wheels") for s in (-1, 1)]
    elif k == "spacecraft":
        out += [(at(placed(box(-0.5, -0.15, 0.5, 0.15), -g.lr, s * g.w_half, 0), st), "k", "thrusters") for s in (-1, 1)]
    elif k in ("rocket", "spaceship"):
        w, l = g.w_t_half, g.l_t_half
        if k == "rocket":
            # the exhaust leaves against the force: left motor pushes along (sin phi, -cos phi), right one along (sin phi, cos phi)
            ex = [(g.l_m, -g.w_half / 10, math.atan2(math.cos(st.phi), -math.sin(st.phi)), u.F_left),
                  (g.l_m, g.w_half / 10, math.atan2(-math.cos(st.phi), -math.sin(st.phi)), u.F_right)]
        else:
            ex = [(-g.l_r, 0, math.atan2(-math.sin(st.delta), -math.cos(st.delta)), u.thrust)]
        for x, y, th, f in ex:
            out.append((at(placed(box(0, -w, l, w), x, y, th), st), "k", "thrusters"))
            fl = Polygon([(l, -w), (l + f / g.F_max / 2, 0), (l, w)])
            if st.m > spec.p.m_v and fl.area > 1e-9:
                out.append((at(placed(fl, x, y, th), st), "r", "flames" if abs(f) > 1e-3 else "faint"))
    return out


def polygon(xy):
    xy = np.asarray(xy, dtype=float)
    if len(xy) < 3:
        return None
    p = Polygon(xy)
    return p if p.is_valid and p.area > 1e-7 else None


def match(c, expected, shown, where, maybe=()):
    """One to one correspondence between expected and displayed polygons"""
    shown = [(p, d) for p, d in ((polygon(d["xy"]), d) for d in shown) if p is not None]
    for e, color, what, tol in expected:
        best = None
        for i, (p, d) in enumerate(shown):
            if abs(p.centroid.x - e.centroid.x) > 0.05 + 1e-9 * abs(e.centroid.x) or abs(p.centroid.y - e.centroid.y) > 0.05 + 1e-9 * abs(e.centroid.y):
                continue
            dif = p.symmetric_difference(e).area
            if dif <= tol * e.area + 1e-7 and (color is None or d["fc"] == film.rgb(color)):
                best = i
                break
        if best is None:
            near = sorted(shown, key=lambda x: x[0].distance(e))[:2]
            c.fail(f"{what} is not displayed where the log puts it", where=where, expected=e.wkt[:300], color=color,
                   nearest=[(p.wkt[:300], d["fc"]) for p, d in near])
        shown.pop(best)
        c.count("checks")
    shown = [(p, d) for p, d in shown if not any(p.symmetric_difference(e).area <= 1e-6 for e in maybe)]
    c.true(not shown, "nothing else is displayed", where=where, extra=[(p.wkt[:200], d["fc"], d["z"]) for p, d in shown])


def judge(c, ctx, specs, frames, dt, lim, how, network=False):
    t0, t1 = float(ctx.log.get_init_time()), float(ctx.log.get_last_time())
    step = min(dt, 1000.0) / 1000.0
    c.true(len(frames) >= 1, "the film has frames")
    tl = t0 + (len(frames) - 1) * step
    c.le(tl, t1 + 1e-9, "the film ends with the log")
    c.le(t1 - tl, 2 * step + 1e-9, "the film covers the log", frames=len(frames), begin=t0, end=t1, dt=dt)
    for k, fr in enumerate(frames):
        t = t0 + k * step
        frame(c, ctx, specs, fr, t, lim, how, network, (k, t))


def frame(c, ctx, specs, fr, t, lim, how, network, where):
    # arrays of alternatives at switching instants of the commands
    exp, names, where = [], [], dict(frame=where[0], t=where[1])
    clock = [x for x in fr["texts"] if x["axes"]]
    c.true(len(clock) == 1, "one clock", where=where)
    num = float("".join(ch for ch in clock[0]["s"] if ch in "0123456789.-"))
    c.le(abs(num - t), 0.05 + 1e-6, "the clock shows the time of the frame", where=where, text=clock[0]["s"])
    circles = list(fr["circles"])
    segs, pos, maybe = [], [], []
    for p, s in specs.items():
        lg = ctx.log[p]
        st, phase = interpolate(lg, t)
        us = held(lg.commands, t, float(lg.commands.timestamps[0]))
        pos.append((st.x, st.y))
        color = s.g.color
        exp.append((at(body(c, s), st), color, f"body of {p} ({s.kind})", 0.006 if s.kind in ROUND else 1e-6))
        c.count("bodies")
        if phase == "over":
            c.count("player gone")
        if s.kind in ("rocket", "spaceship") and phase != "over" and abs(st.m - s.p.m_v) < 1e-9:
            maybe += [e for u in us for e, _, w in parts(s, replace(st, m=s.p.m_v + 1), u) if w in ("flames", "faint")]
            st = replace(st, m=s.p.m_v)  # dry up to rounding
        # choose the alternative that is on display, if any
        alts = [parts(s, st, u) for u in us]
        chosen = alts[0]
        if len(alts) > 1:
            for a in sorted(alts, key=lambda a: -sum(w != "faint" for _, _, w in a)):
                if all(any(_same(e, d) for d in fr["polys"]) for e, _, w in a if w != "faint"):
                    chosen = a
                    break
        for e, col, what in chosen:
            if what == "faint":
                maybe.append(e)
                continue
            exp.append((e, col, f"{what} of {p} ({s.kind})", 1e-6))
            c.count(what)
        situ = "-"
        if s.kind in W.KIN + W.DYN:
            lamp(c, s, st, us, t, circles, where, p)
            situ = us[0].lights + ("/brake" if us[0].acc < 0 else "")
        elif s.kind in ("rocket", "spaceship"):
            situ = "dry" if st.m <= s.p.m_v else "flame"
        if s.kind != "obstacle":
            names.append((str(p), (st.x, st.y)))
        c.situation(s.kind, phase, situ, how)
        # trajectories
        ex = held(lg.extra, t, float(lg.states.timestamps[0]))
        segs.append([[] if not e else [(np.array([[v.x, v.y] for v in tr.values]), film.rgb(color if col is None else col)) for tr, col in e] for e in ex])
        g = ctx.missions.get(p)
        if g is not None and not isinstance(g, ShyGoal):
            exp.append((g.get_plottable_geometry(t), color, f"goal of {p}", 1e-6))
            c.count("goals" if g.is_static else "moving goals")
    for p, xy in names:
        cand = [x for x in fr["texts"] if x["s"] == p and not x["axes"]]
        c.true(len(cand) == 1, "every player has one label", where=where, player=p, labels=len(cand))
        c.close(cand[0]["xy"], xy, f"label of {p}", atol=1e-6, where=where)
    polys, lines = fr["polys"], fr["lines"]
    if network:
        polys, lines = [d for d in polys if d["z"] >= 30], [d for d in lines if d["z"] >= 30]
    else:
        c.true(not circles, "no other lights", where=where, extra=circles[:3])
        c.eq(len(fr["texts"]), len(names) + 1, "no other texts", where=where)
    want_lines = []
    for o in ctx.dg_scenario.static_obstacles:
        c.count("obstacles")
        if isinstance(o.shape, Polygon):
            exp.append((o.shape, o.geometry.color, "static obstacle", 1e-6))
        else:
            want_lines.append((np.array(o.shape.coords), film.rgb(o.geometry.color)))
    match(c, exp, polys, where, maybe)
    for xy, col in want_lines:
        k = [i for i, d in enumerate(lines) if d["xy"].shape == xy.shape and np.allclose(d["xy"], xy, atol=1e-9) and d["c"] == col]
        c.true(bool(k), "an obstacle made of lines is displayed", where=where, expected=xy)
        lines = [d for i, d in enumerate(lines) if i != k[0]]
    c.true(not lines, "no other lines", where=where, extra=[d["xy"] for d in lines][:3])
    # trajectories: one group per player, in any order
    shown = [[(sg, cl) for sg, cl in zip(d["segs"], d["cols"] * (len(d["segs"]) if len(d["cols"]) == 1 else 1))] for d in fr["segments"] if not network or d["z"] >= 40]
    shown = [x for gshow in shown for x in gshow]
    for alts in segs:
        ok = None
        for a in sorted(alts, key=len, reverse=True):
            rest = list(shown)
            good = True
            for xy, col in a:
                k = [i for i, (sg, cl) in enumerate(rest) if sg.shape == xy.shape and np.allclose(sg, xy, atol=1e-9) and cl == col]
                if not k:
                    good = False
                    break
                rest.pop(k[0])
            if good:
                ok, shown = a, rest
                break
        c.true(ok is not None, "the logged trajectories are displayed", where=where, expected=[[(x.tolist(), col) for x, col in a] for a in alts],
               shown=[(x.tolist(), col) for x, col in shown])
        c.count("trajectories", len(ok))
    c.true(not shown, "no other trajectories", where=where, extra=[(x.tolist(), col) for x, col in shown])
    # view
    (xa, xb), (ya, yb) = fr["xlim"], fr["ylim"]
    if lim == "auto":
        c.true(all(xa < x < xb and ya < y < yb for x, y in pos), "all players are in view", where=where, xlim=(xa, xb), ylim=(ya, yb), players=pos)
    elif isinstance(lim, str):
        if lim in specs:
            x, y = pos[list(specs).index(lim)]
            c.true(xa < x < xb and ya < y < yb, "the player in focus is in view", where=where, xlim=(xa, xb), ylim=(ya, yb), player=(x, y))
            c.count("focused")
    else:
        c.close([xa, xb, ya, yb], [*lim[0], *lim[1]], "the given limits are used", where=where)
    c.count("frames")


def _same(e, d):
    p = polygon(d["xy"])
    return p is not None and p.distance(e) == 0 and p.symmetric_difference(e).area <= 1e-6 * e.area + 1e-7


def lamp(c, s, st, us, t, circles, where, p):
    g = s.g
    hw, r = TYRE[g.vehicle_type]
    four = "bicycle" not in s.kind
    front, back = g.lf + (g.lf / 2 if four else r), -g.lr - 2 * r
    y = g.w_half - hw
    co, si = math.cos(st.psi), math.sin(st.psi)
    at_ = [(st.x + co * a - si * b, st.y + si * a + co * b) for a, b in ((front, y), (front, -y), (back, y), (back, -y))]
    got = []
    for xy in at_:
        k = [i for i, d in enumerate(circles) if np.allclose(d["c"], xy, atol=1e-6)]
        c.true(bool(k), f"a lamp of {p} is not where it belongs", where=where, expected=xy, shown=[d["c"] for d in circles])
        if len(k) > 1 and abs(y) > 1e-6:
            c.fail("two lamps at one place", where=where)
        got.append(circles.pop(k[0])["fc"])
    ok = [v for u in us for v in lamps(u.lights, u.acc, t)]
    c.true(tuple(got) in ok, f"the lamps of {p} show its command", where=where, got=got, expected=ok, commands=us)
    c.count("lamps", 4)


# ------------------------------------------------------------------ families
def shoot(c, ctx, dt, lim, **kw):
    before = digest((ctx.log, {p: m.get_state() for p, m in ctx.models.items()}, ctx.time))
    with film.camera() as films:
        create_animation("/nonexistent/film" + c.pick(["", ".mp4", ".gif", ".avi"]), ctx, dt=dt, plot_limits=lim, **kw)
        c.eq(len(films), 1, "one film")
        f = films[0]
        c.true(f.finished, "the film is finished")
        c.true(str(f.outfile).endswith((".mp4", ".gif", ".avi")), "the film has a known format", file=f.outfile)
        c.le(abs(f.fps - 1000 / min(dt, 1000)), 1.0, "frame rate")
        out = f.frames
    c.eq(digest((ctx.log, {p: m.get_state() for p, m in ctx.models.items()}, ctx.time)), before, "filming changes nothing")
    return out


def limits(c, specs):
    k = c.rng.random()
    if k < 0.5:
        return "auto"
    if k < 0.75:
        return c.pick(list(specs))
    if k < 0.85:
        return c.pick(["nobody", ""])
    return [[c.u(-60, -20), c.u(20, 60)], [c.u(-60, -20), c.u(20, 60)]]


def interval(c, ctx):
    span = float(ctx.log.get_last_time() - ctx.log.get_init_time()) * 1000
    return c.pick([x for x in (30, 33.0, 50, 100, 125, 250.0, 1000, 2000) if min(x, 1000) * 4 < span and span / x < 45] or [span / 5])


def logs(c):
    n = c.int(1, 4)
    kinds = [W.KINDS[(c.index + 5 * i) % len(W.KINDS)] for i in range(n)]
    ctx, specs = synthetic(c, kinds)
    lim, dt = limits(c, specs), interval(c, ctx)
    c.note(kinds=kinds, lim=lim, dt=dt, t0=ctx.log.get_init_time())
    for p in specs:
        e = ctx.log[p].extra
        if len(e.timestamps) and e.timestamps[0] > ctx.log.get_init_time() and any(e.values):
            c.count("late extras")
    judge(c, ctx, specs, shoot(c, ctx, dt, lim), dt, lim, "synthetic")
    if c.chance(0.2):  # a second film of the same context
        judge(c, ctx, specs, shoot(c, ctx, dt, lim), dt, lim, "again")


def runs(c):
    """Real simulations, filmed afterwards"""
    w = K.world(c, n=c.int(1, 4), kinds=W.KINDS, obstacles=c.int(0, 2), sensors=False, extras=False, missions=0.0, max_steps=(20, 40), record=False)
    specs = w.init_specs
    for p, ag in w.ctx.players.items():
        s = specs[p]
        if hasattr(W.zero_command(s.kind), "lights"):
            inner, seq = ag.policy, [c.pick(LIGHTS) for _ in range(50)]
            ag.policy = (lambda inner, seq: lambda a, o: replace(inner(a, o), lights=seq[a.n % 50]))(inner, seq)
        if c.chance(0.5):
            ex = [some_extra(c) for _ in range(50)]
            ag.extra = (lambda ex: lambda a: ex[a.n % 50] if a.n % 3 else None)(ex)
    w.run()
    lim, dt = limits(c, specs), interval(c, w.ctx)
    judge(c, w.ctx, specs, shoot(c, w.ctx, dt, lim), dt, lim, "run")


def network(c):
    """With a road network in the background"""
    from vlib import triangulate  # noqa: F401

    pts, ths = R.centerline(c, n=8, ds=5.0, start=(-15.0, 0.0, 0.0))
    sc = R.scenario([R.lanelet(1, pts, ths, np.full(len(pts), 2.5))])
    ctx, specs = synthetic(c, [c.pick(W.KINDS) for _ in range(c.int(1, 3))], DgScenario(scenario=sc, static_obstacles=obstacles(c), use_road_boundaries=c.chance(0.3)))
    lim, dt = limits(c, specs), interval(c, ctx)
    judge(c, ctx, specs, shoot(c, ctx, dt, lim), dt, lim, "network", network=True)
    c.count("networks")


FAMILIES = [("logs", logs, 110, 1500), ("runs", runs, 50, 700), ("network", network, 12, 150)]
