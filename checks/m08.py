"""M08: the dynamic vehicle drives like a vehicle on tyres."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np

from vlib import world as W
from dg_commons.sim.models import Pacejka, Pacejka4p
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn

ID = "M08"
RULE = ("distinct (vehicle, manoeuvre, speed class) combinations of real dynamic vehicle executions that were judged against the laws a vehicle on "
        "tyres obeys (straight running, dissipation, friction bound, steering direction, agreement with the kinematic vehicle), and tyre curves")
REQUIRE = {"tyre": 200, "straight": 100, "coasting": 100, "steered": 150, "friction": 1000, "slip": 100, "gentle": 60, "energy": 500, "circle": 100, "load": 100, "resistance": 100, "grip": 200, "faint slips": 60}
MIN_SITUATIONS = 30
G = 9.81


def tyre(c):
    cls = c.pick([Pacejka, Pacejka4p])
    name = c.pick(["car", "truck", "bicycle"]) + "_" + c.pick(["front", "rear"])
    t = getattr(cls, "default_" + name)()
    if c.chance(0.5):
        t = cls(B=c.u(4, 20), C=c.u(1.1, 2.4), D=c.u(0.2, 1.5), **({"E": c.u(-1, 1)} if cls is Pacejka4p else {}))
        name = "made"
    c.note(tyre=t)
    for s in (c.u(-1.5, 1.5), c.u(-0.2, 0.2)):  # the magic formula
        b, e = t.B * s, getattr(t, "E", 0.0)
        c.close(t.evaluate(s), t.D * math.sin(t.C * math.atan(b - e * (b - math.atan(b)))), f"{cls.__name__}: the force at a slip is that of the magic formula", slip=s, atol=1e-9)
    s = c.u(0, 1.5)
    a, b = t.evaluate(s), t.evaluate(-s)
    c.close(a, -b, f"{cls.__name__} {name}: tyre force is odd in the slip", atol=1e-12)
    c.le(abs(a), t.D + 1e-12, f"{cls.__name__} {name}: tyre force within its peak")
    c.close(t.evaluate(0.0), 0.0, "no slip, no force", atol=1e-12)
    small = c.u(1e-4, 0.02)
    c.true(t.evaluate(small) > 0, "force grows with slip", slip=small)
    c.true(t.evaluate(small * 0.5) < t.evaluate(small), "force grows with small slip", slip=small)
    c.count("tyre")
    c.situation("tyre", cls.__name__, name)


def setup(c, **kw):
    kind = W.DYN[c.index % 3]
    sp = W.spec(c, kind, at=(0.0, 0.0, c.ang()))
    sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.4))
    vx = c.u(1, 0.75 * sp.p.vx_limits[1])
    sp.x0 = replace(sp.x0, vx=vx, vy=0.0, dpsi=0.0, delta=0.0)
    sp.x0 = replace(sp.x0, **kw)
    return kind, sp, vx


def body(st, x0):
    """Displacement in the initial body frame"""
    c, s = math.cos(x0.psi), math.sin(x0.psi)
    dx, dy = st.x - x0.x, st.y - x0.y
    return c * dx + s * dy, -s * dx + c * dy


def manoeuvre(c):
    kind, sp, vx = setup(c)
    what = ("straight", "coasting", "steered", "slip", "gentle")[(c.index // 3) % 5]
    dt = D(c.pick(["0.01", "0.02", "0.05"]))
    n = c.int(5, 25)
    m = sp.build()
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, what=what, dt=dt)
    cls = int(vx // 8)
    if what == "straight":
        for _ in range(n):
            m.update(W.zero_command(kind).__class__(acc=c.u(*sp.p.acc_limits), ddelta=0.0), dt)
        st = m.get_state()
        x, y = body(st, sp.x0)
        c.close([y, st.vy, st.dpsi, st.psi - sp.x0.psi, st.delta], [0] * 5, f"{kind}: without steering it runs straight", atol=1e-9, state=st)
    elif what == "coasting":
        v = vx
        for _ in range(n):
            m.update(W.zero_command(kind), dt)
            w = m.get_state().vx
            c.true(w <= v + 1e-12, f"{kind}: a coasting vehicle does not accelerate", before=v, after=w)
            c.true(v < 0.3 or w < v, f"{kind}: resistance slows a coasting vehicle down", before=v, after=w)
            # rolling resistance of about 0.003 g and the drag of passenger cars, trucks and bicycles
            c.le((v - w) / float(dt), 0.01 * G + (1.0 + 0.1 * v**2) * 300 / sp.g.m + 0.2, f"{kind}: resistance is small", before=v, after=w)
            v = w
    elif what == "steered":
        s = c.sign()
        vx = c.u(2, 12)
        sp.x0 = replace(sp.x0, vx=vx)
        m = sp.build()
        u = replace(W.zero_command(kind), ddelta=s * sp.p.ddelta_max * c.u(0.2, 1))
        t = 0.0
        while t < 0.2:
            m.update(u, dt)
            t += float(dt)
        st = m.get_state()
        c.true(st.delta * s > 0 and st.dpsi * s > 0 and (st.psi - sp.x0.psi) * s > 0, f"{kind}: steering to one side turns to that side", side=s, state=st)
    elif what == "slip":
        # pure side slip: tyres push against it
        vy = c.sign() * vx * c.pick([c.u(0.01, 0.1), 10 ** c.u(-4, -1)])
        m = sp.build(replace(sp.x0, vy=vy))
        h = D("0.001")
        m.update(W.zero_command(kind), h)
        st = m.get_state()
        c.true((st.vy - vy) * vy < 0, f"{kind}: tyres push against side slip", before=vy, after=st.vy)
        ay = (st.vy - vy) / float(h)
        c.le(abs(ay), 1.1 * G + 0.1, f"{kind}: lateral acceleration within friction", ay=ay)
    else:
        # gentle steady turn: the yaw rate is that of the kinematic vehicle
        vx, delta = c.u(2, 4), c.sign() * c.u(0.02, 0.06)
        m = sp.build(replace(sp.x0, vx=vx, delta=delta))
        for _ in range(150):
            m.update(W.zero_command(kind), D("0.01"))
        st = m.get_state()
        kin = st.vx * math.tan(delta) / sp.g.wheelbase
        c.close(st.dpsi, kin, f"{kind}: at low speed it turns like the kinematic vehicle", rtol=0.12, atol=2e-3, state=st)
    c.count(what)
    c.situation(kind, what, cls)


def resistance(c):
    """what slows a vehicle running straight: rolling resistance, which does not depend on speed, and the air's drag, which grows with its square"""
    kind, sp, vx = setup(c)
    vx = c.u(2, 0.9 * sp.p.vx_limits[1])
    h = D("0.001")

    def loss(v, **g):
        m = replace(sp, g=replace(sp.g, **g)).build(replace(sp.x0, vx=v))
        m.update(W.zero_command(kind), h)
        return (v - m.get_state().vx) / float(h)

    c.note(kind=kind, g=sp.g, vx=vx)
    none = dict(c_drag=0.0, c_rr_f=0.0, c_rr_r=0.0)
    c.close(loss(vx, **none), 0.0, f"{kind}: without resistance the speed is kept", atol=1e-7)
    cd, a = c.u(0.1, 1.5), c.u(0.2, 8)
    drag = loss(vx, **{**none, "c_drag": cd, "a_drag": a})
    c.true(drag > 0, f"{kind}: the air slows a vehicle down", loss=drag)
    c.close(drag * sp.g.m, 0.5 * cd * a * vx ** 2 * 1.225, f"{kind}: the drag of a body in air", rtol=0.05, atol=1e-6 * sp.g.m, speed=vx, c_drag=cd, area=a)
    r = c.u(0.3, 0.9)
    c.close(loss(r * vx, **{**none, "c_drag": cd, "a_drag": a}), r * r * drag, f"{kind}: drag grows with the square of the speed", rtol=2e-3, atol=1e-6, speed=vx)
    cr = c.u(0.005, 0.05)
    roll = loss(vx, **{**none, "c_rr_f": cr, "c_rr_r": cr})
    c.close(roll, cr * G, f"{kind}: rolling resistance is a share of the weight", rtol=0.01, atol=1e-6, share=cr)
    front = loss(vx, **{**none, "c_rr_f": cr})
    c.close(front, cr * G * sp.g.lr / (sp.g.lf + sp.g.lr), f"{kind}: an axle resists by the weight on it", rtol=0.01, atol=1e-6)
    c.count("resistance")
    c.situation(kind, "resistance", int(vx // 8))


def friction(c):
    """Whatever is commanded, tyres accelerate the vehicle at most by friction or by the actuator limit"""
    kind, sp, vx = setup(c)
    sp.x0 = replace(sp.x0, vy=c.u(-0.2, 0.2) * vx, dpsi=c.u(-0.5, 0.5), delta=c.u(-0.5, 0.5) * sp.p.delta_max)
    m = sp.build()
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p)
    h = D("0.002")
    u = W.command(c, kind, sp.p, wild=True)
    amax = max(max(map(abs, sp.p.acc_limits)), 1.0 * G) * math.sqrt(2) + 1 + 0.1 * vx
    for _ in range(c.int(5, 15)):
        va, wa = m.get_velocity(in_model_frame=False)
        m.update(u, h)
        vb, wb = m.get_velocity(in_model_frame=False)
        if m.get_state().vx < 0.5:
            break
        a = np.hypot(*(np.array(vb) - np.array(va))) / float(h)
        c.le(a, amax * 1.05, f"{kind}: acceleration beyond friction and actuators", state=m.get_state(), u=u)
        al = abs(wb - wa) / float(h)
        c.le(al, sp.g.m * (1.1 * G + max(map(abs, sp.p.acc_limits))) * (sp.g.lf + sp.g.lr) / sp.g.Iz * 1.05, f"{kind}: yaw acceleration beyond friction")
        c.count("friction")
        if c.chance(0.3):
            u = W.command(c, kind, sp.p, wild=True)
    c.situation(kind, "friction", int(vx // 8))


def energy(c):
    """A coasting vehicle dissipates energy in whatever way it slides and turns"""
    kind, sp, vx = setup(c)
    vx = c.pick([vx, c.u(0.5, 5)])
    sp.x0 = replace(sp.x0, vx=vx, vy=c.u(-0.6, 0.6) * vx, dpsi=c.u(-1, 1) * c.pick([0.3, 1.5]), delta=c.u(-0.6, 0.6) * min(sp.p.delta_max, 1.0))
    g, x = sp.g, sp.x0
    # the tyres roll forward
    if x.vx * math.cos(x.delta) + (x.vy + g.lf * x.dpsi) * math.sin(x.delta) < 0.2:
        return
    slip = math.atan2(x.vy + g.lf * x.dpsi, x.vx) - x.delta
    if kind == "bicycle_dyn" and abs(slip) > 0.3:
        return  # the front tyre of the bicycle is documented as not tuned: beyond this it pushes the wrong way
    m = sp.build()
    c.note(kind=kind, x0=sp.x0, g=g, p=sp.p)

    def kin():
        v, w = m.get_velocity(in_model_frame=True)
        return 0.5 * g.m * float(np.dot(v, v)) + 0.5 * g.Iz * float(w) ** 2

    e = kin()
    for _ in range(c.int(1, 4)):
        m.update(W.zero_command(kind), D("0.001"))
        n = kin()
        c.le(n, e * (1 + 1e-7) + 1e-7, f"{kind}: a coasting vehicle gains energy", before=e, after=n, state=m.get_state())
        e = n
        c.count("energy")
    c.situation(kind, "energy", int(vx // 8), "left" if x.vy > 0 else "right", "ccw" if x.dpsi > 0 else "cw", "steered" if abs(x.delta) > 0.2 else "")


def circle(c):
    """Tyres that slip sideways at their peak have no grip left to accelerate or to brake"""
    kind, sp, vx = setup(c)
    m = sp.build()
    slips = np.linspace(0.01, 1.2, 400)
    f, r = m.pacejka_front, m.pacejka_rear
    if f.evaluate(0.1) != r.evaluate(0.1):
        k = np.array([min(abs(f.evaluate(s)) / f.D, abs(r.evaluate(s)) / r.D) for s in slips])
    else:
        k = np.array([abs(f.evaluate(s)) / f.D for s in slips])
    s = slips[k > 0.99]
    if not len(s):
        return
    vx = c.u(1, 0.8 * sp.p.vx_limits[1])
    vy = c.sign() * vx * math.tan(float(c.pick(list(s))))
    h = D("0.0005")

    def effect(x0, acc):
        v = []
        for u in (acc, 0.0):
            m = sp.build(x0)
            m.update(replace(W.zero_command(kind), acc=u), h)
            v.append(m.get_state().vx)
        return (v[0] - v[1]) / float(h)

    acc = c.pick(sp.p.acc_limits)
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, vx=vx, vy=vy, acc=acc)
    free, slipping = effect(replace(sp.x0, vx=vx), acc), effect(replace(sp.x0, vx=vx, vy=vy), acc)
    c.le(abs(slipping), 0.25 * abs(free) + 0.05, f"{kind}: grip for acceleration while slipping sideways at the peak of the tyre", free=free)
    c.close(free, acc, f"{kind}: a vehicle running straight accelerates as commanded", atol=0.1, rtol=0.1)
    c.count("circle")
    c.situation(kind, "circle", "brake" if acc < 0 else "throttle", "left" if vy > 0 else "right")


def load(c):
    """Braking loads the front axle, accelerating the rear axle: the tyres push sideways in proportion to the load they carry"""
    kind, sp, vx = setup(c)
    g = sp.g
    h = D("0.00001")

    def forces(x0, acc):
        """lateral forces of the axles, from the accelerations observed"""
        m = sp.build(x0)
        m.update(replace(W.zero_command(kind), acc=acc), h)
        s = m.get_state()
        ay = (s.vy - x0.vy) / float(h) + x0.dpsi * x0.vx
        al = (s.dpsi - x0.dpsi) / float(h)
        total, moment = g.m * ay, g.Iz * al
        front = (moment + total * g.lr) / (g.lf + g.lr)
        return front, total - front

    x0 = replace(sp.x0, vx=c.u(3, 0.7 * sp.p.vx_limits[1]))
    x0 = replace(x0, vy=c.sign() * x0.vx * c.u(0.01, 0.08))
    acc = c.pick([c.u(0.3, 0.95) * a for a in sp.p.acc_limits])
    c.note(kind=kind, x0=x0, g=g, p=sp.p, acc=acc)
    (f0, r0), (f, r) = forces(x0, 0.0), forces(x0, acc)
    c.close(f / f0, 1 - g.h_cog * acc / (G * g.lr), f"{kind}: load carried by the front axle", rtol=5e-3, atol=5e-3)
    c.close(r / r0, 1 + g.h_cog * acc / (G * g.lf), f"{kind}: load carried by the rear axle", rtol=5e-3, atol=5e-3)
    c.count("load")
    c.situation(kind, "load", "brake" if acc < 0 else "throttle", int(x0.vx // 8))


def grip(c):
    """without throttle and resistance each axle pushes sideways as its tyre does at the slip of the axle, however small, under the weight it carries"""
    kind, sp, vx = setup(c)
    sp = replace(sp, g=replace(sp.g, c_drag=0.0, c_rr_f=0.0, c_rr_r=0.0))
    g, h = sp.g, D("0.00001")
    vx = c.u(3, 0.75 * sp.p.vx_limits[1])
    L = g.lf + g.lr
    # slips of both axles drawn independently
    sf, sr = (c.sign() * 10 ** c.u(-4, -0.8) for _ in range(2))
    w = vx * (math.tan(sf) - math.tan(sr)) / L
    x0 = replace(sp.x0, vx=vx, vy=vx * math.tan(sf) - g.lf * w, dpsi=w)
    c.note(kind=kind, x0=x0, g=g, p=sp.p, slips=(sf, sr))
    m = sp.build(x0)
    m.update(W.zero_command(kind), h)
    s = m.get_state()
    total = g.m * ((s.vy - x0.vy) / float(h) + w * vx)
    moment = g.Iz * (s.dpsi - w) / float(h)
    front = (moment + total * g.lr) / L
    atol = 1e-6 * g.m * G
    c.close(front, -g.m * G * g.lr / L * m.pacejka_front.evaluate(sf), f"{kind}: push of the front tyres", rtol=5e-3, atol=atol + 2e-3 * abs(total - front), slips=(sf, sr))
    c.close(total - front, -g.m * G * g.lf / L * m.pacejka_rear.evaluate(sr), f"{kind}: push of the rear tyres", rtol=5e-3, atol=atol + 2e-3 * abs(front), slips=(sf, sr))
    c.count("grip")
    c.count("faint slips", min(abs(sf), abs(sr)) < 2e-3)
    c.situation(kind, "grip", int(math.log10(abs(sf))), int(math.log10(abs(sr))), sf * sr > 0)


def variants(c):
    """Default constructors build what they say"""
    name = c.pick(["car", "truck", "bicycle"])
    from dg_commons.sim.models.vehicle_dynamic import VehicleStateDyn

    x0 = VehicleStateDyn(x=c.u(-5, 5), y=c.u(-5, 5), psi=c.ang(), vx=c.u(1, 10), delta=0.0)
    m = getattr(VehicleModelDyn, f"default_{name}")(x0)
    c.eq(m.model_type, name, "vehicle type of the default vehicle")
    c.eq(m.model_geometry.vehicle_type, name, "geometry of the default vehicle")
    c.true(m.get_state() == x0, "initial state of the default vehicle")
    s = x0.to_vehicle_state()
    c.close([s.x, s.y, s.psi, s.vx, s.delta], [x0.x, x0.y, x0.psi, x0.vx, x0.delta], "reduced state")
    c.situation("default", name)


FAMILIES = [("grip", grip, 240, 4000), ("resistance", resistance, 120, 2500), ("load", load, 150, 3000), ("energy", energy, 450, 8000), ("circle", circle, 240, 4000), ("tyres", tyre, 300, 3000), ("manoeuvres", manoeuvre, 750, 12000), ("friction", friction, 300, 6000), ("defaults", variants, 30, 100)]
