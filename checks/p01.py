"""P01: trajectory operations preserve the underlying motion."""
import math
from dataclasses import replace
from decimal import Decimal as D
from fractions import Fraction

import numpy as np

from checks.q01 import times
from vlib import world as W
from vlib.core import rot, wrap
from dg_commons import SE2Transform
from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning.trajectory import Trajectory, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ID = "P01"
RULE = ("distinct (operation, kind of timestamps, lengths or place) classes in which trajectories returned by the real code were compared with "
        "a list based reference")
REQUIRE = {"merges": 600, "refusals": 300, "upsampled": 400, "moved": 900, "commands": 800, "replayed": 80, "standing": 300}
MIN_SITUATIONS = 30


def state(c):
    return VehicleState(x=c.u(-50, 50), y=c.u(-50, 50), psi=c.ang(1.5), vx=c.u(-3, 15), delta=c.u(-0.8, 0.8))


def traj(c, n, tk, t0=None):
    if n == 0:
        return Trajectory([], []), [], []
    ts = times(c, n, tk)
    if t0 is not None:
        ts = [t0 + (t - ts[0]) for t in ts]
        if any(not b > a for a, b in zip(ts, ts[1:])):  # rounding of large floats
            ts = [t0 + i for i in range(n)]
    vs = [state(c) for _ in ts]
    if n > 1 and c.chance(0.35):  # standing for a while, or in some respects
        for i in range(1, n):
            if c.chance(0.5):
                keep = c.pick([("x", "y", "psi", "vx", "delta"), ("x", "y", "psi", "vx", "delta"), ("x", "y"), ("vx", "delta"), ("psi",)])
                vs[i] = replace(vs[i], **{k: getattr(vs[i - 1], k) for k in keep})
                c.count("standing", len(keep) == 5)
    return Trajectory(ts, vs), ts, vs


def lst(t):
    return [*t.timestamps], [*t.values]


def merges(c):
    tk = c.pick(["float", "decimal", "int"])
    na, nb = c.pick([0, 1, 2, 3, 7]), c.pick([0, 1, 2, 3, 7])
    a, ta, va = traj(c, na, tk)
    b, tb, vb = traj(c, nb, tk, ta[-1] if ta else None)
    how = c.pick(["merge", "merge", "merge_unsafe"])
    if na and nb and how == "merge":
        # same speed and steering at the junction, up to something that does not matter
        e = c.pick([0, 0, 4e-4, -4e-4])
        vb[0] = replace(vb[0], vx=va[-1].vx + e, delta=va[-1].delta - e)
        b = Trajectory(tb, vb)
        c.true(a.is_connectable(b), "trajectories with equal speed and steering at the junction are connectable", a_end=va[-1], b_start=vb[0])
    if not (na and nb):
        c.true(a.is_connectable(b) and b.is_connectable(a), "the empty trajectory is connectable")
    m = getattr(a, how)(b)
    c.true(isinstance(m, Trajectory), "a merge is a trajectory")
    ets, evs = (tb, vb) if not na else (ta + tb[1:], va + vb[1:])
    c.eq([*m.timestamps], ets, "timestamps of a merge", ta=ta, tb=tb)
    c.eq([*m.values], evs, "states of a merge")
    c.eq([lst(a), lst(b)], [(ta, va), (tb, vb)], "merging leaves the operands unchanged")
    c.count("merges")
    c.situation(how, tk, min(na, 2), min(nb, 2))
    if na and nb:
        if how == "merge":
            d = c.sign() * c.pick([1.2e-3, 0.01, 1.0])
            what = c.pick(["vx", "delta"])
            bad = Trajectory(tb, [replace(vb[0], **{what: getattr(va[-1], what) + d})] + vb[1:])
            c.true(not a.is_connectable(bad), "a jump in speed or steering is not connectable", what=what, jump=d)
            c.raises(lambda: a.merge(bad), "unconnectable trajectories are not merged", what=what, jump=d)
            c.situation("refused", what, c.pick([0]) if d < 0 else 1)
        else:
            d = D(c.sign()) * D(c.int(2, 900)) / 1000 if tk == "decimal" else c.sign() * (c.u(0.002, 3) if tk == "float" else c.int(1, 3))
            bad = Trajectory([t + d for t in tb], vb)
            c.raises(lambda: a.merge_unsafe(bad), "trajectories that do not follow each other in time are not merged", gap=d)
            c.situation("refused", "time", tk, int(d > 0))
        c.count("refusals")
    # associativity
    if na and nb:
        nc = c.int(1, 4)
        cc, tc, vc = traj(c, nc, tk, tb[-1])
        l, r = a.merge_unsafe(b).merge_unsafe(cc), a.merge_unsafe(b.merge_unsafe(cc))
        c.eq(lst(l), lst(r), "merging is associative")


def upsample(c):
    tk = c.pick(["float", "decimal", "int"])
    n, k = c.pick([1, 2, 3, 6]), c.pick([0, 1, 2, 3, 9, 10])
    t, ts, vs = traj(c, n, tk)
    up = t.upsample(k)
    c.true(isinstance(up, Trajectory), "an up-sampled trajectory is a trajectory")
    c.eq(len(up), (n - 1) * (k + 1) + 1, "number of samples after up-sampling", n=n, k=k)
    ref = [Fraction(x) for x in ts]
    for i in range(len(up)):
        j, r = divmod(i, k + 1)
        if r == 0:
            c.eq(up.timestamps[i], ts[j], "original timestamps are kept")
            c.eq(up.values[i], vs[j], "original states are kept")
        else:
            e = ref[j] + (ref[j + 1] - ref[j]) * r / (k + 1)
            big = max(abs(float(ref[j])), abs(float(ref[j + 1])))
            c.close(float(up.timestamps[i]), float(e), "inserted timestamps are equidistant", atol=1e-12 * max(1, big), rtol=0)
            if tk == "decimal":
                c.true(isinstance(up.timestamps[i], D), "Decimal timestamps stay Decimal")
            x = r / (k + 1)
            slope = 1e-15 * big / float(ref[j + 1] - ref[j])
            c.close(W.vals(up.values[i]), (1 - x) * W.vals(vs[j]) + x * W.vals(vs[j + 1]), "inserted states are linearly interpolated", atol=1e-9 + 2e3 * slope)
    c.eq(lst(t), (ts, vs), "up-sampling leaves the trajectory unchanged")
    c.count("upsampled")
    c.situation("upsample", tk, n, k)


def near_pose(c, x, e, msg, scale, **kw):
    c.close([x.x, x.y], e[:2], msg + " (position)", atol=1e-9 * scale, **kw)
    c.close(wrap(x.psi - e[2]), 0, msg + " (heading)", atol=1e-8, **kw)


def moves(c):
    tk = c.pick(["float", "decimal", "int"])
    n = c.pick([0, 1, 2, 5])
    t, ts, vs = traj(c, n, tk)
    if c.chance(0.15) and n:
        v = vs[0]
        vs[0] = VehicleStateDyn(x=v.x, y=v.y, psi=v.psi, vx=v.vx, delta=v.delta, vy=c.u(-1, 1), dpsi=c.u(-1, 1))
        t = Trajectory(ts, vs)

    def tf():
        kind = c.pick(["any", "any", "turn", "shift", "identity", "far", "slight", "slight"])
        th = c.pick([c.ang(), math.pi, -math.pi, math.pi / 2, 3 * c.ang()])
        s = 1e4 if kind == "far" else 30
        if kind == "slight":
            # nudges: also turning without moving and moving without turning
            w = c.int(0, 2)
            return kind, np.array([0.0, 0.0] if w == 0 else [c.sign() * 10 ** c.u(-6, -1), c.sign() * 10 ** c.u(-6, -1)]), 0.0 if w == 1 else c.sign() * 10 ** c.u(-6, -1)
        p = [c.u(-s, s), c.u(-s, s)]
        return kind, np.array([0.0, 0.0]) if kind in ("turn", "identity") else np.array(p), 0.0 if kind in ("shift", "identity") else th

    k1, p1, a1 = tf()
    k2, p2, a2 = tf()
    scale = 1 + 100 + np.abs(p1).max() + np.abs(p2).max()
    q = t.apply_SE2transform(SE2Transform(p1, a1))
    c.eq([*q.timestamps], ts, "moving keeps the timestamps")
    for x, v in zip(q.values, vs):
        e = np.append(rot(a1) @ [v.x, v.y] + p1, v.psi + a1)
        near_pose(c, x, e, "moved pose", scale, by=(p1, a1), state=v)
        c.true(type(x) is type(v), "moving keeps the type of the states")
        rest = {k: w for k, w in W.as_dict(v).items() if k not in ("x", "y", "psi")}
        c.eq({k: W.as_dict(x)[k] for k in rest}, rest, "moving changes neither speed nor steering")
        c.count("moved")
    c.eq(lst(t), (ts, vs), "moving leaves the trajectory unchanged")
    q = Trajectory(q.timestamps, q.values)
    qq = q.apply_SE2transform(SE2Transform(p2, a2))
    both = t.apply_SE2transform(SE2Transform(rot(a2) @ p1 + p2, a1 + a2))
    for x, y in zip(qq.values, both.values):
        near_pose(c, x, [y.x, y.y, y.psi], "moving twice is moving by the composition", 10 * scale)
    back = q.apply_SE2transform(SE2Transform(-rot(-a1) @ p1, -a1))
    for x, v in zip(back.values, vs):
        near_pose(c, x, [v.x, v.y, v.psi], "moving back restores the trajectory", 10 * scale)
    path = q.as_path()
    c.eq(len(path), n, "one pose per sample")
    for pose, x in zip(path, q.values):
        c.close([*pose.p, pose.theta], [x.x, x.y, x.psi], "path poses are those of the states", atol=0, rtol=0)
    c.situation("move", k1, tk, n)


def commands(c):
    tk = c.pick(["float", "decimal", "int"])
    n = c.pick([2, 3, 5, 9])
    t, ts, vs = traj(c, n, tk)
    plan = commands_plan_from_trajectory(t)
    c.eq(len(plan), n - 1, "one command per interval")
    ref = [Fraction(x) for x in ts]
    vx, delta = vs[0].vx, vs[0].delta
    for i, (tt, u) in enumerate(plan):
        c.true(isinstance(u, VehicleCommands), "commands are vehicle commands")
        c.close(float(tt), float(ts[i]), "a command is issued at the beginning of its interval", atol=1e-9)
        dt = float(ref[i + 1] - ref[i])
        sl = 1e-15 * max(abs(float(ts[i])), abs(float(ts[i + 1]))) / dt
        c.close([u.acc * dt, u.ddelta * dt], [vs[i + 1].vx - vs[i].vx, vs[i + 1].delta - vs[i].delta],
                "commands lead from a sample to the next", atol=1e-9 + 100 * sl, rtol=1e-6, ts=ts, i=i)
        vx, delta = vx + u.acc * dt, delta + u.ddelta * dt
        c.close([vx, delta], [vs[i + 1].vx, vs[i + 1].delta], "commands reproduce the profile", atol=1e-7 + 500 * sl, rtol=1e-6)
        c.count("commands")
    c.eq(lst(t), (ts, vs), "extracting commands leaves the trajectory unchanged")
    c.situation("commands", tk, n)


def replay(c):
    """a motion of the real vehicle, its commands extracted and given to the real vehicle again"""
    g = VehicleGeometry.default_car(lf=c.u(0.8, 2), lr=c.u(0.8, 2)) if c.chance(0.7) else VehicleGeometry.default_truck()
    p = VehicleParameters(vx_limits=(-10, 40), acc_limits=(-9, 6), delta_max=1.2, ddelta_max=1.5)
    dt = D(c.pick(["0.05", "0.1", "0.2"]))
    n = c.int(3, 12)
    x0 = VehicleState(x=c.u(-9, 9), y=c.u(-9, 9), psi=c.ang(), vx=c.u(3, 10), delta=c.u(-0.3, 0.3))
    by = c.pick(["model", "bicycle"])

    def run(cmds):
        xs = [x0]
        if by == "model":
            m = VehicleModel(x0=x0, vg=g, vp=p)
            for u in cmds:
                m.update(u, dt)
                xs.append(m.get_state())
        else:
            b = BicycleDynamics(g, p)
            for u in cmds:
                xs.append(b.successor_ivp(xs[-1], u, dt))
        return xs

    us = [VehicleCommands(acc=c.u(-3, 3), ddelta=c.u(-0.5, 0.5)) for _ in range(n)]
    xs = run(us)
    t0 = D(c.int(0, 50)) / 10
    t = Trajectory([t0 + i * dt for i in range(n + 1)], xs)
    plan = commands_plan_from_trajectory(t)
    for u, v in zip(us, plan.values):
        c.close(W.vals(v), W.vals(u), "extracted commands are the ones given", atol=1e-6)
    ys = run([*plan.values])
    c.close([W.vals(a) for a in ys], [W.vals(a) for a in xs], "extracted commands reproduce the motion", atol=1e-4)
    c.count("replayed")
    c.situation("replay", by)


FAMILIES = [("merge", merges, 900, 20000), ("upsample", upsample, 500, 12000), ("move", moves, 700, 15000), ("commands", commands, 350, 8000), ("replay", replay, 120, 1200)]
