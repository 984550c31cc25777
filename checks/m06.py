"""M06: fuel consumption and empty tanks."""
from dataclasses import replace
from decimal import Decimal as D

from vlib import eqs
from vlib import world as W

ID = "M06"
RULE = ("distinct (model, fuel state, kind of command) classes in which the mass and the motion after real updates were compared with the "
        "integral of the applied thrust, or with unpowered flight")
REQUIRE = {"burning": 1500, "empty": 1500, "running empty": 60, "off": 200}
MIN_SITUATIONS = 14
KINDS = ("rocket", "spaceship")


def thrust(kind, p, u):
    if kind == "rocket":
        return eqs.sat(u.F_left, p.F_limits) + eqs.sat(u.F_right, p.F_limits)
    return eqs.sat(u.thrust, p.thrust_limits)


def flow(kind, p):
    """Largest possible mass flow"""
    return p.C_T * (2 * p.F_limits[1] if kind == "rocket" else p.thrust_limits[1])


def cmd(c, kind, p, what):
    if what == "wild":
        return W.command(c, kind, p, wild=True)
    u = W.command(c, kind, p)
    if what == "off":
        return replace(u, F_left=0.0, F_right=0.0) if kind == "rocket" else replace(u, thrust=0.0)
    if what == "weak":
        k = 10 ** c.u(-4, -1.3)
        return replace(u, F_left=u.F_left * k, F_right=u.F_right * k) if kind == "rocket" else replace(u, thrust=u.thrust * k)
    if what == "full":
        return replace(u, F_left=1e6, F_right=p.F_limits[1]) if kind == "rocket" else replace(u, thrust=10 ** c.u(0.8, 8))
    return u


def unpowered(c, kind, g, p, a, b, u, dt):
    """No acceleration, no torque, no mass change"""
    c.close(b.m, a.m, f"{kind}: an empty tank cannot get lighter", atol=1e-12, before=a, after=b, u=u)
    c.close(b.dpsi, a.dpsi, f"{kind}: no torque from an empty tank", atol=1e-9, before=a, after=b, u=u)
    z = W.zero_command(kind)
    n = "dphi" if kind == "rocket" else "ddelta"
    ref, _ = eqs.integrate(kind, g, p, a, replace(z, **{n: getattr(u, n)}), D(dt), n=40)
    for k in ("vx", "vy", "x", "y", "psi"):
        c.close(getattr(b, k), ref[k], f"{kind}: no acceleration from an empty tank, component {k}", atol=2e-3 * (1 + abs(ref[k] - getattr(a, k))),
                rtol=0, before=a, after=b, u=u)
    c.count("empty")


def case(c):
    kind = KINDS[c.index % 2]
    sp = W.spec(c, kind, at=(c.u(-1, 1), c.u(-1, 1), c.ang()))
    p, g = sp.p, sp.g
    dt = c.pick(["0.01", "0.05", "0.1", "0.2"])
    fd = float(dt)
    state = c.pick(["full", "nearly empty", "exactly empty", "below"])
    m0 = {"full": p.m_v + c.u(0.5, 3), "nearly empty": p.m_v + c.u(0.1, 4) * flow(kind, p) * fd, "exactly empty": p.m_v, "below": p.m_v * c.u(0.9, 0.999)}[state]
    sp.x0 = replace(sp.x0, m=m0, dpsi=c.u(-1, 1))
    md = sp.build()
    what = c.pick(["wild", "off", "full", "inside", "weak"])
    c.note(kind=kind, x0=sp.x0, g=g, p=p, dt=dt, fuel=state, commands=what)
    lowest = min(m0, p.m_v)
    for i in range(c.int(5, 25)):
        a = replace(md.get_state())
        u = cmd(c, kind, p, what)
        md.update(u, D(dt))
        b = md.get_state()
        f = thrust(kind, p, u)
        c.note(step=i, u=u, before=a, after=b)
        if f >= 0:
            c.le(b.m, a.m + 1e-9, f"{kind}: mass increases", before=a, after=b, u=u)
        c.true(b.m >= min(lowest, a.m) - flow(kind, p) * fd * 1.001 - 1e-9, f"{kind}: more fuel burnt than there was", before=a, after=b, dry=p.m_v)
        if f == 0:
            c.close(b.m, a.m, f"{kind}: engines off, mass constant", atol=1e-12, before=a, after=b, u=u)
            c.count("off")
        if a.m <= p.m_v:
            unpowered(c, kind, g, p, a, b, u, dt)
            c.situation(kind, "empty", what, state)
        elif a.m - p.C_T * f * fd > p.m_v + 1e-6 and a.m - p.C_T * max(f, 0) * fd * 1.4 > p.m_v:
            c.close(a.m - b.m, p.C_T * f * fd, f"{kind}: mass flow is thrust times coefficient", atol=1e-9, rtol=1e-6, before=a, after=b, u=u)
            c.count("burning")
            c.situation(kind, "burning", what)
        else:
            c.count("running empty")
            c.true(b.m <= a.m + 1e-9, f"{kind}: mass increases while running empty", before=a, after=b)
            c.situation(kind, "running empty", what)
        if max(abs(b.x), abs(b.y), abs(b.psi)) > 12:
            md = sp.build(replace(b, x=0.0, y=0.0, psi=0.0))


FAMILIES = [("fuel", case, 500, 12000)]
