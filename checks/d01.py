"""D01: the bicycle the planners plan with."""
import math
from copy import deepcopy
from decimal import Decimal as D

import numpy as np

from vlib import world as W
from vlib.core import wrap
from dg_commons.dynamics import BicycleDynamics
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ID = "D01"
RULE = ("distinct (vehicle, method, step length, limit reached) combinations in which rates or steps of the planners' bicycle were compared with "
        "independently written equations, with the geometry of its axles, or with the simulated car")
REQUIRE = {"rates": 2000, "axles": 2000, "euler": 1500, "limited": 300, "converging": 60, "integrated": 600, "split": 300, "circles": 100,
           "simulated": 300, "left alone": 2000}
MIN_SITUATIONS = 60
TOL = {0.0: 1e-12, 0.05: 2e-6, 0.1: 2e-5, 0.2: 4e-4, 0.5: 4e-2, 1.0: 0.25}  # ten times what 20000 integrations of the unchanged code showed


def vehicle(c):
    k = c.pick(["car", "bicycle", "truck", "other"])
    if k == "bicycle":
        return k, VehicleGeometry.default_bicycle(), VehicleParameters.default_bicycle()
    if k == "truck":
        return k, VehicleGeometry.default_truck(), VehicleParameters.default_truck()
    g, p = VehicleGeometry.default_car(), VehicleParameters.default_car()
    if k == "other":
        from dataclasses import replace
        g = replace(g, lf=c.u(0.6, 3), lr=c.u(0.6, 3))
        p = replace(p, acc_limits=(-c.u(1, 9), c.u(1, 6)), vx_limits=(-c.u(1, 9), c.u(5, 30)), delta_max=c.u(0.3, 1.2), ddelta_max=c.u(0.2, 2))
    return k, g, p


def state(c, p, f=1.0):
    return VehicleState(x=c.u(-60, 60), y=c.u(-60, 60), psi=c.pick([0.0, math.pi / 2, -math.pi, c.ang(), c.u(-9, 9)]),
                        vx=c.pick([0.0, c.u(f * p.vx_limits[0], f * p.vx_limits[1])]), delta=c.pick([0.0, c.u(-f * p.delta_max, f * p.delta_max)]))


def command(c, p, f=1.0):
    return VehicleCommands(acc=c.pick([0.0, c.u(f * p.acc_limits[0], f * p.acc_limits[1])]),
                           ddelta=c.pick([0.0, c.u(-f * p.ddelta_max, f * p.ddelta_max)]))


def rhs(g, y, acc, rate):
    x, yy, psi, v, d = y
    w = v * math.tan(d) / (g.lf + g.lr)
    return np.array([v * math.cos(psi) - g.lr * w * math.sin(psi), v * math.sin(psi) + g.lr * w * math.cos(psi), w, acc, rate])


def vec(s):
    return np.array([s.x, s.y, s.psi, s.vx, s.delta], float)


def flow(g, y, acc, rate, t, n=400):
    h = t / n
    for _ in range(n):
        a = rhs(g, y, acc, rate)
        b = rhs(g, y + h / 2 * a, acc, rate)
        q = rhs(g, y + h / 2 * b, acc, rate)
        e = rhs(g, y + h * q, acc, rate)
        y = y + h / 6 * (a + 2 * b + 2 * q + e)
    return y


def unchanged(c, x, u, kept):
    c.eq((x, u), kept, "the given state and command are left alone")
    c.count("left alone")


def rates(c):
    for _ in range(10):
        k, g, p = vehicle(c)
        b = BicycleDynamics(vg=g, vp=p)
        x, u = state(c, p, 1.3), command(c, p, 2)
        if abs(x.delta) > 1.45:
            continue
        kept = deepcopy((x, u))
        r = b.dynamics(x, u)
        c.true(type(r) is VehicleState, "the rate is a state", got=type(r))
        want = rhs(g, vec(x), u.acc, u.ddelta)
        c.close(vec(r), want, "rate of change of the state", atol=1e-10, rtol=1e-10, x=x, u=u, g=g)
        unchanged(c, x, u, kept)
        c.count("rates")
        # what a bicycle is: no axle slips sideways
        h = np.array([math.cos(x.psi), math.sin(x.psi)])
        n = np.array([-h[1], h[0]])
        v = np.array([r.x, r.y])
        rear, front = v - g.lr * r.psi * n, v + g.lf * r.psi * n
        c.close(float(rear @ n), 0.0, "the rear axle does not slip", atol=1e-9, x=x, g=g)
        c.close(float(rear @ h), x.vx, "the rear axle moves at the vehicle's speed", atol=1e-9, x=x, g=g)
        s = x.psi + x.delta
        c.close(float(front @ [-math.sin(s), math.cos(s)]), 0.0, "the front wheel rolls where it points", atol=1e-9, x=x, g=g)
        c.count("axles")
        c.situation("rates", k, x.vx > 0, x.vx < 0, np.sign(x.delta))


def euler(c):
    for _ in range(10):
        k, g, p = vehicle(c)
        b = BicycleDynamics(g, p)
        x, u = state(c, p, 1.0), command(c, p, c.pick([0.8, 2.5]))
        if c.chance(0.3):  # next to a limit, heading for it
            v, d = c.pick([0, 1]), c.sign()
            at = c.pick([1.0, 1.0, c.u(0.98, 1)])
            x = VehicleState(x=x.x, y=x.y, psi=x.psi, vx=p.vx_limits[v] * at, delta=d * p.delta_max * c.pick([at, 1.0]))
            to = c.pick([v, v, 1 - v]), c.pick([d, d, -d])  # or away from it
            u = VehicleCommands(acc=p.acc_limits[to[0]] * c.u(0.5, 2), ddelta=to[1] * p.ddelta_max * c.u(0.5, 2))
        dt = c.pick([0.0, 0.01, 0.05, 0.1, 0.2, 0.5])
        as_ = c.pick([float, lambda t: D(repr(t)), np.float64] + ([int] if dt == 0 else []))
        kept = deepcopy((x, u))
        y = b.successor(x, u, as_(dt))
        acc, rate = min(max(u.acc, p.acc_limits[0]), p.acc_limits[1]), min(max(u.ddelta, -p.ddelta_max), p.ddelta_max)
        want = vec(x) + dt * rhs(g, vec(x), acc, rate)
        free = want.copy()
        want[3] = min(max(want[3], p.vx_limits[0]), p.vx_limits[1])
        want[4] = min(max(want[4], -p.delta_max), p.delta_max)
        c.close(vec(y), want, "one forward step within the limits of the vehicle", atol=1e-9, rtol=1e-10, x=x, u=u, dt=dt, p=p)
        unchanged(c, x, u, kept)
        c.count("euler")
        lim = (u.acc != acc, u.ddelta != rate, free[3] != want[3], free[4] != want[4])
        if any(lim):
            c.count("limited")
        c.situation("euler", k, dt, lim)


def converging(c):
    """many small forward steps approach the integrated motion, at first order"""
    k, g, p = vehicle(c)
    b = BicycleDynamics(g, p)
    x = VehicleState(x=c.u(-5, 5), y=c.u(-5, 5), psi=c.ang(), vx=c.u(0.3, 0.6) * p.vx_limits[1], delta=c.u(-0.6, 0.6) * min(p.delta_max, 0.9))
    u = command(c, p, 0.3)
    t = 0.25
    ref = flow(g, vec(x), u.acc, u.ddelta, t)
    if abs(ref[4]) > p.delta_max or not p.vx_limits[0] < ref[3] < p.vx_limits[1]:
        return
    err = []
    for n in (10, 20, 40):
        y = x
        for _ in range(n):
            y = b.successor(y, u, t / n)
        err.append(np.abs(vec(y) - ref).max())
    if err[0] > 1e-6:
        for a, q in zip(err, err[1:]):
            c.true(0.4 < q / a < 0.6, "halving the step halves the error", err=err, x=x, u=u)
        c.count("converging")
        c.situation("converging", k, np.sign(u.acc), np.sign(u.ddelta))
    z = b.successor_ivp(x, u, D(repr(t)))
    c.close(vec(z), ref, "the integrated motion is their limit", atol=1e-3, x=x, u=u)


def integrated(c):
    k, g, p = vehicle(c)
    b = BicycleDynamics(g, p)
    for _ in range(3):
        x, u = state(c, p, 0.8), command(c, p, 0.8)
        dt = c.pick(list(TOL))
        if abs(x.delta) + abs(u.ddelta) * dt > 1.1:
            continue
        kept = deepcopy((x, u))
        y = b.successor_ivp(x, u, c.pick([float, lambda t: D(repr(t))])(dt))
        unchanged(c, x, u, kept)
        ref = flow(g, vec(x), u.acc, u.ddelta, dt) if dt else vec(x)
        tol = TOL[dt] * (1 + np.abs(ref - vec(x)).max())
        c.close(vec(y), ref, "the solution of the equations of motion", atol=tol, x=x, u=u, dt=dt, g=g)
        c.count("integrated")
        c.situation("integrated", k, dt, x.vx > 0, np.sign(u.acc), np.sign(u.ddelta))
        if dt:
            s = dt * c.u(0.1, 0.9)
            z = b.successor_ivp(b.successor_ivp(x, u, s), u, dt - s)
            c.close(vec(z), vec(y), "the motion can be split in two", atol=2 * tol, x=x, u=u, dt=dt, s=s)
            c.count("split")
            if 0.05 <= dt <= 0.2 and p.vx_limits[0] < min(ref[3], x.vx) and max(ref[3], x.vx) < p.vx_limits[1] and abs(ref[4]) < p.delta_max:
                m = VehicleModel(x0=deepcopy(x), vg=g, vp=p)
                m.update(u, D(repr(dt)))
                d = vec(m.get_state()) - vec(y)
                d[2] = wrap(d[2])
                c.le(np.abs(d).max(), 2 * tol, "the simulated vehicle moves alike", x=x, u=u, dt=dt)
                c.count("simulated")


def circles(c):
    k, g, p = vehicle(c)
    b = BicycleDynamics(g, p)
    v = c.u(0.2, 0.6) * p.vx_limits[1] * c.pick([1, 1, -0.3])
    d = c.sign() * c.u(0.1, 0.9) * min(p.delta_max, 1.0)
    x = VehicleState(x=c.u(-20, 20), y=c.u(-20, 20), psi=c.ang(), vx=v, delta=d)
    R = (g.lf + g.lr) / math.tan(d)
    rear = lambda s: np.array([s.x - g.lr * math.cos(s.psi), s.y - g.lr * math.sin(s.psi)])
    o = rear(x) + R * np.array([-math.sin(x.psi), math.cos(x.psi)])
    y = x
    u = VehicleCommands(acc=0.0, ddelta=0.0)
    for i in range(1, 9):
        y = b.successor_ivp(y, u, 0.1)
        c.close(np.hypot(*(rear(y) - o)), abs(R), "with the steering held the rear axle goes round in a circle of radius wheelbase over tangent", atol=2e-3 * i, x=x, g=g)
        c.close(y.psi - x.psi, v * 0.1 * i / R, "as far as its speed takes it", atol=1e-3, x=x, g=g)
    c.count("circles")
    c.situation("circle", k, v > 0, d > 0)


FAMILIES = [("rates", rates, 300, 3000), ("euler", euler, 300, 3000), ("converging", converging, 150, 1500), ("integrated", integrated, 400, 6000),
            ("circles", circles, 150, 1500)]
