"""P02: generated motion primitives and sampled commands are feasible and complete."""
from decimal import Decimal as D
from itertools import product

import numpy as np

from vlib import world as W
from vlib.eqs import sat
from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning import CommandsSampler, CommandsSamplerParam, MotionPrimitivesGenerator, MPGParam
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ID = "P02"
RULE = ("distinct (generator, dynamics used, grid shape, start given or not, steps, feasible share) classes in which the set of generated "
        "trajectories was compared with a brute-force enumeration; trajectories were also checked against the dynamics calls recorded while generating")
REQUIRE = {"primitives": 3000, "feasible transitions": 2500, "infeasible transitions": 4000, "sampled": 3000, "refused": 200, "dynamics calls": 8000, "derived": 80, "changed parameters": 50, "long primitives": 4}
MIN_SITUATIONS = 40


def vehicle(c):
    vp = c.pick([VehicleParameters.default_car, VehicleParameters.default_truck, VehicleParameters.default_bicycle, None])
    vp = vp() if vp else VehicleParameters(vx_limits=(c.u(-5, 0), c.u(5, 40)), acc_limits=(-c.u(1, 9), c.u(1, 6)), delta_max=c.u(0.3, 1.2), ddelta_max=c.u(0.2, 1.5))
    vg = c.pick([VehicleGeometry.default_car, VehicleGeometry.default_truck, VehicleGeometry.default_bicycle])()
    return vg, vp


class Recorder:
    """passes through to the real dynamics and remembers what was asked and answered"""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, x, u, dt):
        before = W.vals(x).copy()
        y = self.f(x, u, dt)
        self.calls.append((x, before, u, float(dt), y))
        return y


def dynamics(c, vg, vp):
    kind = c.pick(["ivp", "ivp", "euler", "model"])
    b = BicycleDynamics(vg, vp)
    if kind == "ivp":
        f = b.successor_ivp
    elif kind == "euler":
        f = b.successor
    else:
        def f(x, u, dt):
            m = VehicleModel(x0=x, vg=vg, vp=vp)
            m.update(u, D(repr(dt)))
            return m.get_state()
    return kind, Recorder(f)


def grid(c, lo, hi):
    """(start, stop, n) within lo..hi"""
    k = c.pick(["full", "part", "point", "symmetric"])
    n = c.pick([1, 2, 3, 4, 5])
    if k == "full":
        return (lo, hi, n)
    if k == "point":
        v = c.pick([c.u(lo, hi), 0.0]) if lo <= 0 <= hi else c.u(lo, hi)
        return (v, v, 1)
    if k == "symmetric":
        m = min(-lo, hi) if lo < 0 < hi else hi
        return (-m, m, c.pick([3, 5])) if lo < 0 < hi else (lo, hi, 3)
    a, b = sorted((c.u(lo, hi), c.u(lo, hi)))
    return (a, b, n)


def lin(g):
    a, b, n = g
    return [a] if n == 1 else [a + (b - a) * i / (n - 1) for i in range(n)]


def state(c, vp, T=0.0):
    d = min(vp.delta_max, 1.45 - vp.ddelta_max * T)  # no wheel is turned beyond a right angle, where the equations end
    return VehicleState(x=c.u(-30, 30), y=c.u(-30, 30), psi=c.ang(2), vx=0.0 if c.chance(0.2) else c.u(*vp.vx_limits), delta=c.u(-d, d) if d > 0 else 0.0)


def check_steps(c, rec, trajs, dt, n, vp):
    """every trajectory is a chain of dynamics answers to one constant admissible command"""
    by = {id(call[4]): call for call in rec.calls}
    for t in trajs:
        us = []
        for a, b in zip(t.values, t.values[1:]):
            call = by.get(id(b))
            if call is None:  # copies are fine
                call = next((k for k in rec.calls if np.array_equal(W.vals(k[4]), W.vals(b)) and np.array_equal(k[1], W.vals(a))), None)
            c.true(call is not None, "a state of a trajectory is the answer of the dynamics", state=b)
            x, before, u, h, y = call
            c.close(before, W.vals(a), "each state is obtained from the one before", atol=0, rtol=0)
            c.close(h, dt, "each step is one sampling period long", atol=1e-12)
            us.append(W.vals(u))
        for u in us:
            c.close(u, us[0], "one constant command per trajectory", atol=1e-12)
            c.true(vp.acc_limits[0] - 1e-9 <= u[0] <= vp.acc_limits[1] + 1e-9, "acceleration within the vehicle's limits", u=u, limits=vp.acc_limits)
            c.true(abs(u[1]) <= vp.ddelta_max + 1e-9, "steering rate within the vehicle's limits", u=u, limit=vp.ddelta_max)
    for x, before, u, h, y in rec.calls:
        c.close(W.vals(x), before, "states handed to the dynamics stay as they were", atol=0, rtol=0)
        c.count("dynamics calls")


def primitives(c):
    vg, vp = vehicle(c)
    kind, rec = dynamics(c, vg, vp)
    dt = D(c.pick(["0.1", "0.2", "0.25", "0.5"]))
    n = c.pick([1, 2, 3, 5])
    long = c.chance(0.06)
    if long:
        n, dt = c.int(10, 45), D(c.pick(["0.02", "0.05", "0.1"]))
        c.count("long primitives")
    derived = c.chance(0.25) and not long
    if derived:
        param = MPGParam.from_vehicle_parameters(dt=dt, n_steps=n, n_vel=(nv := c.int(1, 5)), n_steer=(ns := c.int(1, 5)), vp=vp)
        c.close(param.velocity, (*vp.vx_limits, nv), "velocities derived from the vehicle's limits")
        c.close(param.steering, (-vp.delta_max, vp.delta_max, ns), "steering derived from the vehicle's limits")
        c.count("derived")
    else:
        a, b = grid(c, *vp.vx_limits), grid(c, -vp.delta_max, vp.delta_max)
        if c.chance(0.5):  # fine enough for a good share to be feasible
            m = c.u(*vp.vx_limits)
            a = (max(vp.vx_limits[0], m - c.u(0.2, 3)), min(vp.vx_limits[1], m + c.u(0.2, 3)), c.int(2, 5))
            m = c.u(-0.8, 0.8) * vp.delta_max
            b = (max(-vp.delta_max, m - c.u(0.05, 0.4)), min(vp.delta_max, m + c.u(0.05, 0.4)), c.int(2, 4))
        if long:
            a, b = (a[0], a[1], min(a[2], 2)), (b[0], b[1], min(b[2], 3))
        param = MPGParam(dt=dt, n_steps=n, velocity=a, steering=b)
    gen = MotionPrimitivesGenerator(param=param, vehicle_dynamics=rec, vehicle_param=vp)
    x0 = state(c, vp) if c.chance(0.5) else None
    c.note(param=param, vp=vp, x0=x0, kind=kind)
    out = gen.generate(x0) if x0 is not None else gen.generate()
    out = list(out)
    vs, ds = lin(param.velocity), lin(param.steering)
    starts = [*product(vs, ds)] if x0 is None else [(x0.vx, x0.delta)]
    T = float(dt * n)
    # brute force
    must, may = [], []
    for (v0, d0), (v1, d1) in product(starts, product(vs, ds)):
        acc, rate = (v1 - v0) / T, (d1 - d0) / T
        room = min(acc - vp.acc_limits[0], vp.acc_limits[1] - acc, vp.ddelta_max - abs(rate))
        if room > 1e-9:
            must.append((v0, d0, v1, d1))
            c.count("feasible transitions")
        elif room >= -1e-9:
            may.append((v0, d0, v1, d1))
        else:
            c.count("infeasible transitions")
    tol = dict(atol=1e-6, rtol=1e-6)
    got = []
    for t in out:
        c.true(isinstance(t, Trajectory), "primitives are trajectories")
        c.eq([*t.timestamps], [i * dt for i in range(n + 1)], "requested sampling")
        s, e = t.values[0], t.values[-1]
        if x0 is None:
            c.close([s.x, s.y, s.psi], [0, 0, 0], "primitives start at the origin", atol=0)
        else:
            c.close(W.vals(s), W.vals(x0), "primitives start at the requested state", atol=0, rtol=0)
        if kind == "model":  # stops at its limits within the accuracy of its integrator only: judge what was asked of it
            u = next(W.vals(k[2]) for k in rec.calls if k[4] is t.values[1] or np.array_equal(W.vals(k[4]), W.vals(t.values[1])) and np.array_equal(k[1], W.vals(s)))
            got.append((s.vx, s.delta, s.vx + u[0] * T, s.delta + u[1] * T))
        else:
            got.append((s.vx, s.delta, e.vx, e.delta))
        c.count("primitives")
    A = np.array(must + may).reshape(-1, 4)
    G = np.array(got).reshape(-1, 4)
    for g in G:
        c.true(len(A) and np.abs(A - g).max(axis=1).min() < 1e-6 * (1 + np.abs(g).max()), "a primitive is a feasible transition between grid values", primitive=g)
    for m in must:
        c.true(len(G) and np.abs(G - m).max(axis=1).min() < 1e-6 * (1 + np.abs(m).max()), "every feasible transition between grid values is generated", transition=m)
    def distinct(rows):
        return len({tuple(np.round(r, 5)) for r in np.array(rows).reshape(-1, 4)})
    c.le(len(out), distinct(must + may), "no transition is generated twice")
    check_steps(c, rec, out, float(dt), n, vp)
    share = len(must) / max(1, len(starts) * len(vs) * len(ds))
    c.situation("primitives", kind, "from state" if x0 is not None else "free", n, "none" if not must else "all" if share == 1 else "some")
    if c.chance(0.4):  # other parameters from now on
        n2 = c.pick([1, 2, 3])
        p2 = MPGParam(dt=D(c.pick(["0.2", "0.4"])), n_steps=n2, velocity=(v := c.u(*vp.vx_limits), v, 1), steering=grid(c, -0.9 * vp.delta_max, 0.9 * vp.delta_max))
        gen.param = p2
        fresh = MotionPrimitivesGenerator(param=p2, vehicle_dynamics=rec.f, vehicle_param=vp)
        k = lambda ts: sorted([tuple((t, *W.vals(s)) for t, s in q) for q in ts])
        c.eq(k(gen.generate(x0)), k(fresh.generate(x0)), "after a change of its parameters the generator generates what they say", param=p2)
        c.count("changed parameters")
        gen.param = param
    # once more gives the same
    again = gen.generate(x0)
    c.eq(sorted([tuple(map(tuple, map(W.vals, t.values))) for t in again]), sorted([tuple(map(tuple, map(W.vals, t.values))) for t in out]), "generating again gives the same primitives")


def sampler(c):
    vg, vp = vehicle(c)
    kind, rec = dynamics(c, vg, vp)
    dt = D(c.pick(["0.1", "0.2", "0.5", "0.9"]))
    if c.chance(0.35):
        na, nr = c.int(1, 6), c.int(1, 6)
        param = CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=na, n_steer_rate=nr, vp=vp)
        c.close(param.acc, (*vp.acc_limits, na), "accelerations derived from the vehicle's limits")
        c.close(param.steer_rate, (-vp.ddelta_max, vp.ddelta_max, nr), "steering rates derived from the vehicle's limits")
        c.count("derived")
    else:
        param = CommandsSamplerParam(dt=dt, n_steps=1, acc=grid(c, *vp.acc_limits), steer_rate=grid(c, -vp.ddelta_max, vp.ddelta_max))
    if c.chance(0.3):  # set later
        s = CommandsSampler(CommandsSamplerParam(dt=D(1), n_steps=1, acc=(0, 0, 1), steer_rate=(0, 0, 1)), rec, vp)
        s.update_params(param)
    else:
        s = CommandsSampler(param, rec, vp)
    for _ in range(2):
        rec.calls.clear()
        x0 = state(c, vp, float(dt))
        before = W.vals(x0).copy()
        out = list(s.generate(x0))
        c.close(W.vals(x0), before, "the given state is left alone", atol=0, rtol=0)
        cmds = [*product(lin(param.acc), lin(param.steer_rate))]
        ref = np.array([W.vals(rec.f(x0, VehicleCommands(acc=a, ddelta=r), float(dt))) for a, r in cmds])
        ends = np.array([W.vals(t.values[-1]) for t in out])
        for t in out:
            c.eq([*t.timestamps], [D(0), dt], "one step of the requested length")
            c.close(W.vals(t.values[0]), W.vals(x0), "sampled commands start at the given state", atol=0, rtol=0)
            c.le(np.abs(ref - W.vals(t.values[-1])).max(axis=1).min(), 1e-6, "a sampled trajectory is one step under an admissible command", end=t.values[-1])
            c.count("sampled")
        for r, u in zip(ref, cmds):
            c.le(np.abs(ends - r).max(axis=1).min(), 1e-6, "every command of the grid is sampled", command=u)
        c.true(len(out) <= len(cmds), "no command is sampled twice")
        # the commands given to the dynamics are the grid itself
        given = np.array([W.vals(k[2]) for k in rec.calls])
        for u in cmds:
            c.le(np.abs(given - u).max(axis=1).min(), 1e-9, "the command grid is what the dynamics is asked", command=u)
        check_steps(c, rec, out, float(dt), 1, vp)
    c.situation("sampler", kind, param.acc[2], param.steer_rate[2])


def refusals(c):
    vg, vp = vehicle(c)
    f = BicycleDynamics(vg, vp).successor_ivp
    acc, rate = [c.u(vp.acc_limits[0], 0), c.u(0, vp.acc_limits[1])], [c.u(-vp.ddelta_max, 0), c.u(0, vp.ddelta_max)]
    what = c.pick(["acc low", "acc high", "rate low", "rate high", "acc order", "rate order"])
    e = c.pick([1e-3, 0.1, 3.0])
    if what == "acc low":
        acc[0] = vp.acc_limits[0] - e
    elif what == "acc high":
        acc[1] = vp.acc_limits[1] + e
    elif what == "rate low":
        rate[0] = -vp.ddelta_max - e
    elif what == "rate high":
        rate[1] = vp.ddelta_max + e
    elif what == "acc order":
        acc.reverse()
    else:
        rate.reverse()
    p = CommandsSamplerParam(dt=D("0.1"), n_steps=1, acc=(*acc, 3), steer_rate=(*rate, 3))
    c.raises(lambda: CommandsSampler(p, f, vp), "ranges beyond the vehicle's limits are refused", what=what, param=p, vp=vp)
    good = CommandsSamplerParam.from_vehicle_parameters(dt=D("0.1"), n_steps=1, n_acc=2, n_steer_rate=2, vp=vp)
    s = CommandsSampler(good, f, vp)
    c.raises(lambda: s.update_params(p), "ranges beyond the vehicle's limits are refused later on as well", what=what, param=p)
    x0 = state(c, vp)
    n = len(s.generate(x0))
    c.true(n == 4, "a refused update leaves the sampler as it was", n=n)
    c.count("refused")
    c.situation("refused", what, e)


FAMILIES = [("primitives", primitives, 250, 2500), ("sampler", sampler, 250, 2500), ("refusals", refusals, 300, 3000)]
