"""K01: the PID controller saturates, tracks and does not wind up."""
import math
from decimal import Decimal as D

from vlib import world as W
from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.sim.models.vehicle import VehicleCommands

ID = "K01"
RULE = ("distinct (kind of controller, gains in use, saturation of output / reference / integral at the call, repeated or first call) "
        "classes in which the output of a controller was compared with a reference running in parallel")
REQUIRE = {"outputs compared": 20000, "output saturated": 1000, "output in linear range": 1000, "integral saturated": 1000, "reference clipped": 1000,
           "repeated calls": 500, "first calls": 300, "vehicle controllers": 100, "loops closed": 20, "wind up histories": 60}
MIN_SITUATIONS = 60


def clip(v, lo, hi):
    return min(max(v, lo), hi)


class Ref:
    """textbook discrete PID: rectangular integration at the call times, clipped integral, backward difference"""

    def __init__(self, kP, kI, kD, aw, sp, out):
        self.g, self.aw, self.sp, self.out = (kP, kI, kD), aw, sp, out
        self.I, self.t, self.e = 0.0, None, 0.0
        self.m = self.r = 0.0

    def call(self, t):
        e = clip(self.r, *self.sp) - self.m
        dt = 0.0 if self.t is None else t - self.t
        self.I = clip(self.I + self.g[1] * e * dt, *self.aw)
        d = (e - self.e) / dt if dt else 0.0
        self.e, self.t = e, t
        raw = self.g[0] * e + self.I + self.g[2] * d
        return raw, clip(raw, *self.out)


def span(c, scale, around=True):
    w = c.u(0.05, 1) * scale
    return (-w, w) if c.chance(0.5) else (-w, c.u(0.05, 1) * scale)


def params(c):
    sc = c.pick([1.0, 1.0, 10.0, 0.1])
    return dict(kP=c.pick([0, c.u(0.1, 5), c.u(0.1, 5)]), kI=c.pick([0, c.u(0.1, 3), c.u(0.1, 3)]), kD=c.pick([0, c.u(0.01, 1), c.u(0.01, 1)]),
                antiwindup=span(c, 1), setpoint_minmax=span(c, 3 * sc), output_minmax=span(c, 4 * sc))


def times(c, n):
    how = c.pick(["regular", "irregular", "repeats", "grid", "rapid"])
    t = c.pick([0.0, 0.0, c.u(0, 100), 5])
    dt = c.pick([0.1, 0.05, c.u(0.01, 1)])
    out = []
    for _ in range(n):
        out.append(t)
        if how == "regular":
            t = t + dt
        elif how == "grid":
            t = t + c.pick([1, 2])
        elif how == "irregular":
            t = t + c.u(0.001, 2)
        elif how == "rapid":  # polled far faster than anything moves
            t = t + 10 ** c.u(-6, -2)
        else:
            t = t + c.pick([0, dt, dt])
    return out


def signal(c, n, scale):
    how = c.pick(["steps", "noise", "sine", "constant"])
    if how == "constant":
        return [c.u(-scale, scale)] * n
    if how == "noise":
        return [c.u(-scale, scale) for _ in range(n)]
    if how == "sine":
        a, w, p = c.u(0, scale), c.u(0.05, 1.5), c.ang()
        return [a * math.sin(w * i + p) for i in range(n)]
    out, v = [], c.u(-scale, scale)
    for _ in range(n):
        if c.chance(0.1):
            v = c.u(-scale, scale)
        out.append(v)
    return out


def drive(c, pid, ref, n, scale, name):
    ts, ms, rs = times(c, n), signal(c, n, scale), signal(c, n, 1.3 * scale)
    prev = None
    for i, t in enumerate(ts):
        m, r = ms[i], rs[i]
        if prev is not None and t == prev[0]:
            m, r = prev[1:]  # nothing new within one instant
            c.count("repeated calls")
        if i == 0:
            c.count("first calls")
        skip = c.chance(0.2) and i > 0  # sensors and references do not have to be refreshed
        if not skip:
            for f in c.rng.sample(["m", "r"], 2):
                if f == "m":
                    pid.update_measurement(m)
                    ref.m = m
                else:
                    pid.update_reference(r)
                    ref.r = r
        u = pid.get_control(t)
        raw, want = ref.call(t)
        c.true(isinstance(u, float), "the output is a number")
        c.le(u, ref.out[1] + 1e-12, "output within its upper limit")
        c.le(ref.out[0] - 1e-12, u, "output within its lower limit")
        c.close(u, want, "output of the controller", atol=1e-9, rtol=1e-7, call=i, time=t, measurement=ref.m, requested=ref.r, gains=ref.g, limits=(ref.aw, ref.sp, ref.out))
        c.count("outputs compared")
        sat = raw != want
        c.count("output saturated" if sat else "output in linear range")
        iw = ref.I in ref.aw
        if iw:
            c.count("integral saturated")
        rc = clip(ref.r, *ref.sp) != ref.r
        if rc:
            c.count("reference clipped")
        c.situation(name, *[int(bool(g)) for g in ref.g], "output " + ("limited" if sat else "free"), "integral " + ("limited" if iw else "free"),
                    "reference " + ("clipped" if rc else "free"), "repeat" if prev and prev[0] == t else "first" if i == 0 else "next")
        prev = (t, m, r)


def generic(c):
    p = params(c)
    ref = Ref(p["kP"], p["kI"], p["kD"], p["antiwindup"], p["setpoint_minmax"], p["output_minmax"])
    pid = PID(PIDParam(**p))
    other = PID(PIDParam(**p))  # a sibling that must stay independent
    drive(c, pid, ref, c.int(20, 80), max(abs(x) for x in p["setpoint_minmax"]) * c.pick([0.5, 1, 2]), "generic")
    other.update_measurement(0.0)
    other.update_reference(0.0)
    c.close(other.get_control(3.0), clip(clip(0.0, *p["antiwindup"]) + p["kP"] * clip(0, *p["setpoint_minmax"]), *p["output_minmax"]), "another controller is not affected", atol=1e-12)
    c.eq((pid.params.kP, pid.params.kI, pid.params.kD, tuple(pid.params.antiwindup), tuple(pid.params.setpoint_minmax), tuple(pid.params.output_minmax)),
         (p["kP"], p["kI"], p["kD"], p["antiwindup"], p["setpoint_minmax"], p["output_minmax"]), "parameters are not altered")


def vehicle(c):
    """controllers for a vehicle: its limits are theirs"""
    kind = c.pick(W.KIN)
    vp = W.parameters(c, kind)
    which = c.pick(["speed", "steer"])
    how = c.pick(["controller", "parameters"])
    if which == "speed":
        pid = SpeedController.from_vehicle_params(vp) if how == "controller" else SpeedController(SpeedControllerParam.from_vehicle_params(vp))
        out, sp = tuple(vp.acc_limits), tuple(vp.vx_limits)
    else:
        pid = SteerController.from_vehicle_params(vp) if how == "controller" else SteerController(SteerControllerParam.from_vehicle_params(vp))
        out, sp = (-vp.ddelta_max, vp.ddelta_max), (-vp.delta_max, vp.delta_max)
    p = pid.params
    ref = Ref(p.kP, p.kI, p.kD, tuple(p.antiwindup), sp, out)
    c.true(p.kP > 0 and p.kI >= 0 and p.kD >= 0, "gains act against the error")
    drive(c, pid, ref, c.int(20, 60), 1.5 * max(map(abs, sp)), which)
    c.count("vehicle controllers")


def loop(c):
    """closed with a real vehicle"""
    kind = c.pick(W.KIN)
    sp = W.spec(c, kind, at=(0, 0, c.ang()), speed=0)
    m = sp.build()
    vp = sp.p
    which = c.pick(["speed", "steer"])
    dt = c.pick([D("0.05"), D("0.1")])
    if which == "speed":
        pid, goal = SpeedController.from_vehicle_params(vp), c.u(max(vp.vx_limits[0], -2) * 0.9, min(vp.vx_limits[1], 20) * 0.9)
        tend = 6 + 4 * abs(goal) / min(abs(vp.acc_limits[0]), vp.acc_limits[1])
    else:
        pid, goal = SteerController.from_vehicle_params(vp), c.u(-0.9, 0.9) * vp.delta_max
        tend = 10 + 4 * vp.delta_max / vp.ddelta_max
    if tend > 120:
        return
    pid.update_reference(goal)
    t = D(0)
    while t < D(str(round(tend, 2))):
        s = m.get_state()
        pid.update_measurement(s.vx if which == "speed" else s.delta)
        u = pid.get_control(float(t))
        m.update(VehicleCommands(acc=u, ddelta=0.0) if which == "speed" else VehicleCommands(acc=0.0, ddelta=u), dt)
        t += dt
    s = m.get_state()
    got = s.vx if which == "speed" else s.delta
    scale = max(abs(goal), 1.0 if which == "speed" else 0.1)
    c.le(abs(got - goal), 0.1 * scale, "a closed loop reaches its reference", reference=goal, reached=got, which=which, kind=kind, dt=dt)
    c.count("loops closed")
    c.situation("loop", which, kind, "positive" if goal > 0 else "negative")


def windup(c):
    """after a long time of unreachable demands the integral action is gone within the anti-windup range"""
    kI = c.u(0.5, 3)
    aw = (-c.u(0.2, 1), c.u(0.2, 1))
    pid = PID(PIDParam(kP=0.0, kI=kI, kD=0.0, antiwindup=aw, setpoint_minmax=(-10, 10), output_minmax=(-5, 5)))
    s = c.sign()
    pid.update_reference(s * 5.0)
    pid.update_measurement(0.0)
    t, dt, u = 0.0, c.u(0.01, 0.3), 0.0
    for _ in range(c.int(50, 300)):
        u = pid.get_control(t)
        t += dt
    lim = aw[1] if s > 0 else aw[0]
    c.le(abs(u), abs(lim) + 1e-12, "integral action within its limits")
    e = c.u(0.1, 1)
    pid.update_reference(-s * e)
    n = 0
    first = True
    while True:
        v = pid.get_control(t)
        t += dt
        n += 1
        if v * s <= 1e-12:
            break
        c.le(n, abs(lim) / (kI * e * dt) + 3, "integral action unwinds at once", gain=kI, dt=dt, error=e, limit=lim)
    c.count("wind up histories")
    c.situation("wind up", s)


FAMILIES = [("generic", generic, 500, 10000), ("vehicle", vehicle, 150, 3000), ("loop", loop, 40, 600), ("wind up", windup, 80, 800)]
