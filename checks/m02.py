"""M02: the models integrate their documented equations of motion."""
import math
from dataclasses import replace
from decimal import Decimal as D

from shapely.affinity import scale

from vlib import eqs
from vlib import world as W

ID = "M02"
RULE = ("distinct (model, step length, oracle) combinations for which one or several real updates were compared with an independent "
        "integration of the documented equations, with a split step, or with the transformed execution")
EQ = [k for k in W.KINDS if k not in W.DYN]
REQUIRE = {"integrated": 900, "split": 600, "moved": 600, "mirrored": 500, "at rest": 150, "bounded": 10, "skids": 300, "odd steps": 500}
MIN_SITUATIONS = 60
DTS = ("0.01", "0.02", "0.05", "0.1", "0.2")
# observed integration errors of the unchanged models times five at least
TOL = {"0.01": 2e-7, "0.02": 2e-6, "0.05": 1e-5, "0.1": 2e-4, "0.2": 1e-2}
TOL_OBS = {"0.01": 2e-4, "0.02": 4e-4, "0.05": 1e-3, "0.1": 2e-3, "0.2": 5e-3}


def odd(c, dt):
    """steps of any length, not only round ones"""
    if c.chance(0.5):
        return dt
    c.count("odd steps")
    return str(D(dt) * D(repr(round(c.u(0.5, 1), c.int(2, 9)))))


def tol(kind, dt):
    return next(t for d, t in (TOL_OBS if kind == "obstacle" else TOL).items() if D(dt) <= D(d))


def bucket(dt):
    return next(d for d in DTS if D(dt) <= D(d)) + ("" if dt in DTS else " odd")


def near_origin(c):
    return c.u(-1, 1), c.u(-1, 1), c.ang()


def cmp(c, kind, got, ref, x0, t, msg, **kw):
    for k in ref:
        c.close(got[k], ref[k], f"{kind}: {msg}, component {k}", atol=t * (1 + abs(ref[k] - getattr(x0, k))), rtol=0, **kw)


def equations(c):
    kind = EQ[c.index % len(EQ)]
    sp = W.spec(c, kind, at=near_origin(c))
    dt = odd(c, c.pick(DTS))
    u = W.command(c, kind, sp.p, scale=1.6 if c.chance(0.3) else 0.9)
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, u=u, dt=dt)
    ref, smooth = eqs.integrate(kind, sp.g, sp.p, sp.x0, u, D(dt))
    m = sp.build()
    m.update(u, D(dt))
    got = W.as_dict(m.get_state())
    if smooth:
        cmp(c, kind, got, ref, sp.x0, tol(kind, dt), "one update is the solution of the equations of motion")
        c.count("integrated")
        c.situation(kind, bucket(dt), "equations")
        # split
        a = D(dt) * (c.int(1, 9) / D(10) if c.chance(0.5) else D(repr(c.u(0.05, 0.95))))
        s = sp.build()
        s.update(u, a)
        s.update(u, D(dt) - a)
        cmp(c, kind, W.as_dict(s.get_state()), got, sp.x0, 2 * tol(kind, dt), "an update split in two", split=a)
        c.count("split")
        c.situation(kind, bucket(dt), "split")
    else:  # a limit was reached on the way: still close to the solution
        fast = {k: abs(v - getattr(sp.x0, k)) for k, v in ref.items()}
        for k in ref:
            c.close(got[k], ref[k], f"{kind}: update across a limit, component {k}", atol=0.35 * fast[k] + 0.02 + 0.3 * float(dt), rtol=0.02)
        c.count("bounded")


def long(c):
    """Many updates with changing commands, as in a simulation"""
    kind = EQ[c.index % len(EQ)]
    sp = W.spec(c, kind, at=near_origin(c), inner=0.4)
    dt = odd(c, c.pick(DTS[:4]))
    m = sp.build()
    st = sp.x0
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, dt=dt)
    for i in range(c.int(5, 20)):
        u = W.command(c, kind, sp.p, scale=0.5)
        ref, smooth = eqs.integrate(kind, sp.g, sp.p, st, u, D(dt), n=30)
        m.update(u, D(dt))
        n = m.get_state()
        if smooth and max(abs(n.x), abs(n.y), abs(n.psi)) < 8:
            cmp(c, kind, W.as_dict(n), ref, st, 4 * tol(kind, dt), "one update of a sequence", step=i, u=u)
            c.count("integrated")
            c.situation(kind, bucket(dt), "sequence")
        st = replace(n)


def sensible(c, kind, dt_max="0.1"):
    sp = W.spec(c, kind, at=near_origin(c))
    if kind in W.DYN:  # stiff otherwise
        sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.5))
        sp.x0 = replace(sp.x0, vx=c.u(3, 15), vy=c.u(-0.2, 0.2), dpsi=c.u(-0.2, 0.2))
    return sp


def symmetry(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = sensible(c, kind)
    dt = odd(c, c.pick(DTS[:3]) if kind in W.DYN else c.pick(DTS[:4]))
    u = W.command(c, kind, sp.p)
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, u=u, dt=dt)
    t = 2e-3 if kind in W.DYN else 5 * tol(kind, dt)
    if kind in EQ and not eqs.integrate(kind, sp.g, sp.p, sp.x0, u, D(dt), n=30)[1]:
        return  # integration errors where a limit is reached depend on the steps of the solver
    m = sp.build()
    m.update(u, D(dt))
    a = m.get_state()
    # rigid motions of the world
    T = (c.u(-3, 3), c.u(-3, 3), c.ang())
    b = sp.build(W.move(sp.x0, T))
    if c.chance(0.3):
        b.has_collided = m.has_collided
    b.update(u, D(dt))
    ref = W.as_dict(W.move(a, T))
    for k, v in W.as_dict(b.get_state()).items():
        tk = 15 * t if kind in W.DYN and k in W.RATES else t
        c.close(v, ref[k], f"{kind}: update in a moved world, component {k}", atol=tk * (1 + abs(getattr(a, k) - getattr(sp.x0, k))), rtol=0, T=T)
    c.count("moved")
    c.situation(kind, bucket(dt), "moved")
    # whole turns of the heading mean nothing
    b = sp.build(replace(sp.x0, psi=sp.x0.psi + 2 * math.pi * c.sign()))
    b.update(u, D(dt))
    for k, v in W.as_dict(b.get_state()).items():
        if k != "psi":
            c.close(v, getattr(a, k), f"{kind}: update after a whole turn, component {k}", atol=(15 if kind in W.DYN else 1) * t * 3, rtol=0)
    # left and right
    um = W.mirror_command(kind, u)
    pm = mirror_limits(kind, sp.p)
    if pm is None:
        return
    xm = mirror(kind, sp.x0)
    b = W.make(kind, xm, sp.g, pm, None if sp.shape is None else scale(sp.shape, 1, -1, origin=(0, 0)))
    b.update(um, D(dt))
    ref = W.as_dict(mirror(kind, a))
    for k, v in W.as_dict(b.get_state()).items():
        c.close(v, ref[k], f"{kind}: mirrored update, component {k}", atol=1e-9 + 1e-3 * t, rtol=1e-9)
    c.count("mirrored")
    c.situation(kind, bucket(dt), "mirrored")


def mirror(kind, st):
    if kind == "rocket":  # global velocities; the nozzles swap, so phi stays
        return replace(st, y=-st.y, psi=-st.psi, vy=-st.vy, dpsi=-st.dpsi)
    return W.mirror(st)


def mirror_limits(kind, p):
    """Limits of the mirrored model"""
    def flip(*names):
        return replace(p, **{n: (-getattr(p, n)[1], -getattr(p, n)[0]) for n in names})

    if kind == "obstacle":  # the same limits for both axes
        return flip("dpsi_limits", "ddpsi_limits") if p.acc_limits[0] == -p.acc_limits[1] and p.vx_limits[0] == -p.vx_limits[1] else None
    if kind == "spacecraft":
        return flip("dpsi_limits")
    if kind == "spaceship":
        return flip("delta_limits", "ddelta_limits")
    return p


def skid(c):
    """Dynamic vehicles sliding in any direction, slow ones included: left and right are alike, and so are all headings"""
    kind = W.DYN[c.index % 3]
    sp = sensible(c, kind)
    vx = c.pick([c.u(0.15, 1.5), c.u(0.15, 1.5), c.u(1, 15)])
    sp.x0 = replace(sp.x0, vx=vx, vy=c.u(-1, 1) * c.pick([0.1, 1, 3]) * vx, dpsi=c.u(-1, 1) * c.pick([0.1, 1, 3]), delta=c.u(-0.95, 0.95) * sp.p.delta_max)
    u = W.command(c, kind, sp.p, scale=1.5)
    dt = D("0.001")
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, u=u)
    a, b = sp.build(), sp.build(W.mirror(sp.x0))
    a.update(u, dt)
    b.update(W.mirror_command(kind, u), dt)
    ref = W.as_dict(W.mirror(a.get_state()))
    for k, v in W.as_dict(b.get_state()).items():
        c.close(v, ref[k], f"{kind}: mirrored skid, component {k}", atol=1e-7, rtol=1e-7)
    T = (c.u(-1, 1), c.u(-1, 1), c.ang())
    b = sp.build(W.move(sp.x0, T))
    b.update(u, dt)
    ref = W.as_dict(W.move(a.get_state(), T))
    for k, v in W.as_dict(b.get_state()).items():
        d = abs(getattr(a.get_state(), k) - getattr(sp.x0, k))
        c.close(v, ref[k], f"{kind}: skid in a moved world, component {k}", atol=1e-4 + 0.02 * d, rtol=0, T=T)
    c.count("skids")
    c.situation(kind, "skid", "slow" if vx < 1.5 else "fast", "left" if sp.x0.vy > 0 else "right", "large" if abs(sp.x0.vy) > vx else "small")


def rest(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind)
    for n in W.RATES:
        if hasattr(sp.x0, n):
            setattr(sp.x0, n, 0.0)
    m = sp.build()
    u = W.zero_command(kind)
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p)
    if c.chance(0.3):
        m.has_collided = True
    for _ in range(c.int(1, 5)):
        m.update(u, D(c.pick(DTS)))
    for k, v in W.as_dict(m.get_state()).items():
        c.close(v, getattr(sp.x0, k), f"{kind}: zero commands at rest, component {k}", atol=1e-10, rtol=1e-10)
    c.count("at rest")
    c.situation(kind, "rest")


FAMILIES = [("skids", skid, 450, 10000), ("equations", equations, 2200, 30000), ("sequences", long, 90, 3000), ("symmetry", symmetry, 840, 20000),
            ("rest", rest, 240, 4000)]
