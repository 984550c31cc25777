"""M01: actuation and state limits hold whatever is commanded."""
from dataclasses import replace
from decimal import Decimal as D

from vlib import world as W
from vlib.core import clone

ID = "M01"
RULE = ("distinct (model, monitored quantity) pairs whose limit was approached or reached (within 10 percent) by executions under random, "
        "saturated and huge commands while the per-step monitors watched")
REQUIRE = {"steps": 6000, "limit reached": 300, "saturated pairs": 400, "inner pairs": 300, "creeping steps": 2000, "released": 250, "steps from a limit": 400}
MIN_SITUATIONS = 25
DTS = ("0.01", "0.05", "0.1", "0.2", "0.5")
EPS = 1e-6


class Watch:
    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.crossing = False

    def state(self, name, pre, post, lo, hi, rate, dt):
        """limited state: never further outside than one step at the maximal rate, never pushed further out"""
        c, tol = self.c, EPS + 2e-3 * max(abs(hi), abs(lo))
        slack = rate * dt * 1.02 + tol
        self.crossing = (pre - lo) * (post - lo) <= 0 or (pre - hi) * (post - hi) <= 0 or max(pre, post) > hi - slack or min(pre, post) < lo + slack
        if lo <= pre <= hi:
            c.true(lo - slack <= post <= hi + slack, f"{self.kind}: {name} leaves its limits", before=pre, after=post, limits=(lo, hi), dt=dt)
        else:
            c.true(min(pre - tol, lo - slack) <= post <= max(pre + tol, hi + slack), f"{self.kind}: {name} is pushed further out of its limits", before=pre,
                   after=post, limits=(lo, hi), dt=dt)
        if pre in (lo, hi):  # already there: no further
            c.count("steps from a limit")
            c.true(post <= hi + EPS if pre == hi else post >= lo - EPS, f"{self.kind}: {name} moves on beyond the limit it is at", before=pre, after=post, limits=(lo, hi), dt=dt)
        if post >= hi - 0.05 * (hi - lo) or post <= lo + 0.05 * (hi - lo):
            c.count("limit reached")
            c.situation(self.kind, name, "high" if post > (hi + lo) / 2 else "low")

    def rate(self, name, pre, post, lo, hi, dt, extra=0.0):
        """limited rate of change"""
        c, d = self.c, post - pre
        # across a limit of the integrated state the solver's error is larger
        tol = EPS + (0.35 if self.crossing else 2e-3) * max(abs(lo), abs(hi)) * dt + extra
        c.true(lo * dt - tol <= d <= hi * dt + tol, f"{self.kind}: rate of {name} beyond the actuator limits", change=d, dt=dt, limits=(lo, hi))
        if d >= 0.9 * hi * dt or d <= 0.9 * lo * dt:
            c.count("rate limit reached")
            c.situation(self.kind, "rate of " + name)


def monitor(c, sp, a, b, u, dt, straight=False):
    k, p, g = sp.kind, sp.p, sp.g
    w = Watch(c, k)
    if k in W.KIN + W.DYN:
        w.state("steering angle", a.delta, b.delta, -p.delta_max, p.delta_max, p.ddelta_max, dt)
        w.rate("steering angle", a.delta, b.delta, -p.ddelta_max, p.ddelta_max, dt)
        if k in W.KIN:
            w.state("speed", a.vx, b.vx, *p.vx_limits, max(map(abs, p.acc_limits)), dt)
            w.rate("speed", a.vx, b.vx, *p.acc_limits, dt)
        elif straight:
            w.state("speed", a.vx, b.vx, *p.vx_limits, max(map(abs, p.acc_limits)), dt)
            # resistance and drag act as well
            w.rate("speed", a.vx, b.vx, p.acc_limits[0] - 0.1 - 0.1 * abs(a.vx), p.acc_limits[1], dt)
    elif k == "pedestrian":
        w.state("speed", a.vx, b.vx, *p.vx_limits, max(map(abs, p.acc_limits)), dt)
        w.rate("speed", a.vx, b.vx, *p.acc_limits, dt)
        w.crossing = False
        w.rate("heading", a.psi, b.psi, -p.dtheta_max, p.dtheta_max, dt)
    elif k == "diff":
        lo, hi = p.omega_limits
        wmax = g.wheelradius * (hi - lo) / g.wheelbase
        w.rate("heading", a.psi, b.psi, -wmax, wmax, dt)
        d = ((b.x - a.x) ** 2 + (b.y - a.y) ** 2) ** 0.5
        vmax = g.wheelradius * max(abs(lo), abs(hi))
        c.le(d, vmax * dt * 1.002 + EPS, "diff: distance travelled beyond what the wheels' speed limit allows", dt=dt)
        # travelled = average wheel speed, turned = wheel speed difference: both wheels within their limits
        s, t = d / dt, (b.psi - a.psi) / dt * g.wheelbase / 2
        c.le(s + abs(t), vmax * 1.01 + EPS, "diff: a wheel turned faster than its limit", dt=dt)
        if d >= 0.9 * vmax * dt:
            c.situation(k, "wheel speed")
    elif k == "obstacle":
        w.state("yaw rate", a.dpsi, b.dpsi, *p.dpsi_limits, max(map(abs, p.ddpsi_limits)), dt)
        w.rate("yaw rate", a.dpsi, b.dpsi, *p.ddpsi_limits, dt)
        for n, what in (("vx", "longitudinal speed"), ("vy", "lateral speed")):
            w.state(what, getattr(a, n), getattr(b, n), *p.vx_limits, max(map(abs, p.acc_limits)), dt)
            w.crossing = True  # the limited sum of command and frame rotation may cross its limits at any time
            w.rate(what, getattr(a, n), getattr(b, n), *p.acc_limits, dt)
    elif k == "spacecraft":
        span = p.acc_limits[1] - p.acc_limits[0]
        dd = g.w_half * g.m / g.Iz * span
        w.state("yaw rate", a.dpsi, b.dpsi, *p.dpsi_limits, dd, dt)
        w.rate("yaw rate", a.dpsi, b.dpsi, -dd, dd, dt)
        dv2 = b.vx**2 + b.vy**2 - a.vx**2 - a.vy**2  # the frame's rotation does not change the speed
        amax = 2 * max(map(abs, p.acc_limits))
        vm = max((a.vx**2 + a.vy**2) ** 0.5, (b.vx**2 + b.vy**2) ** 0.5)
        c.le(abs((b.vx**2 + b.vy**2) ** 0.5 - (a.vx**2 + a.vy**2) ** 0.5), amax * dt * 1.01 + 1e-3 * (1 + vm),
             "spacecraft: change of speed beyond the thrusters' limits", dt=dt, dv2=dv2)
    elif k in ("rocket", "spaceship"):
        n = "phi" if k == "rocket" else "delta"
        w.state("nozzle angle", getattr(a, n), getattr(b, n), *p.delta_limits, max(map(abs, p.ddelta_limits)), dt)
        w.rate("nozzle angle", getattr(a, n), getattr(b, n), *p.ddelta_limits, dt)
        lim = p.F_limits if k == "rocket" else p.thrust_limits
        e = 2 if k == "rocket" else 1
        w.crossing |= min(a.m, b.m) <= p.m_v + 2 * p.C_T * e * max(map(abs, lim)) * dt + 1e-3  # the tank may run empty
        w.rate("mass", a.m, b.m, -p.C_T * e * lim[1], -p.C_T * e * min(lim[0], 0.0), dt)
        fmax = e * max(map(abs, lim))
        dv = abs((b.vx**2 + b.vy**2) ** 0.5 - (a.vx**2 + a.vy**2) ** 0.5)
        vm = max((a.vx**2 + a.vy**2) ** 0.5, (b.vx**2 + b.vy**2) ** 0.5)
        c.le(dv, fmax / min(a.m, b.m) * dt * (1.35 if w.crossing else 1.01) + 1e-3 * (1 + vm), f"{k}: change of speed beyond the thrust limits", dt=dt)
        arm = g.l_m * 1.0 if k == "rocket" else g.l_r
        tau = arm * (max(map(abs, lim)) if k != "rocket" else lim[1] - lim[0]) / g.Iz
        w.rate("yaw rate", a.dpsi, b.dpsi, -tau, tau, dt, extra=1e-4)
    c.count("steps")


def extreme(c, kind, p, signs):
    """Saturating command pushing in a fixed direction"""
    u = W.command(c, kind, p)
    kw = {}
    for i, n in enumerate(W.comps(u)):
        kw[n] = signs[i] * 10 ** c.u(1.5, 9)
    return replace(u, **kw)


def at_limits(c, kind, p, x0, u):
    """The state with limited components at (or just short of) the limit towards which the command pushes"""
    def edge(lims, rate):
        lo, hi = lims
        d = c.pick([0.0, 0.0, 1e-3, 0.05]) * (hi - lo)
        return hi - d if rate > 0 else lo + d

    kw = {}
    if kind in W.KIN:
        kw = dict(delta=edge((-p.delta_max, p.delta_max), u.ddelta), vx=edge(p.vx_limits, u.acc))
    elif kind == "pedestrian":
        kw = dict(vx=edge(p.vx_limits, u.acc))
    elif kind == "obstacle":
        kw = dict(dpsi=edge(p.dpsi_limits, u.acc_psi))
    elif kind == "spacecraft":
        kw = dict(dpsi=edge(p.dpsi_limits, u.acc_right - u.acc_left))
    elif kind == "rocket":
        kw = dict(phi=edge(p.delta_limits, u.dphi))
    elif kind == "spaceship":
        kw = dict(delta=edge(p.delta_limits, u.ddelta))
    return replace(x0, **kw)


def run(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind, at=(c.u(-1, 1), c.u(-1, 1), c.ang()))
    straight = kind in W.DYN and c.chance(0.5)
    if kind in W.DYN:
        sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.5))
        if straight:
            sp.x0 = replace(sp.x0, vy=0.0, dpsi=0.0, delta=0.0)
    dt = D(c.pick(DTS[:3] if kind in W.DYN else DTS))
    mode = c.pick(["push", "wild", "blocks", "creep"])
    lim = limits(kind, sp.p)
    creep = W.command(c, kind, sp.p)
    if mode == "creep":
        # held commands, some of them tiny, starting at or near a limit
        creep = replace(creep, **{k: c.pick(lim[k]) * c.pick([1.0, 0.6, 0.3, 0.1, 0.02]) for k in lim})
        sp.x0 = at_limits(c, kind, sp.p, sp.x0, creep)
    m = sp.build()
    c.note(kind=kind, x0=sp.x0, g=sp.g, p=sp.p, dt=dt, mode=mode, straight=straight)
    signs = [c.sign() for _ in range(4)]
    n = c.int(8, 40) if kind not in W.DYN or straight else c.int(4, 10)
    a = replace(m.get_state())
    for i in range(n):
        if mode == "creep":
            u = creep
            c.count("creeping steps")
        elif mode == "wild":
            u = W.command(c, kind, sp.p, wild=True)
        else:
            if mode == "blocks" and c.chance(0.15):
                signs = [c.sign() for _ in range(4)]
            u = extreme(c, kind, sp.p, signs)
        if straight:
            u = replace(u, ddelta=0.0)
        if c.chance(0.1) and mode != "creep":
            u = W.command(c, kind, sp.p)
            if straight:
                u = replace(u, ddelta=0.0)
        m.update(u, dt)
        b = m.get_state()
        c.note(step=i, u=u, before=a, after=b)
        monitor(c, sp, a, b, u, float(dt), straight)
        a = replace(b)
        if max(abs(a.x), abs(a.y), abs(a.psi)) > 30:  # stay near the origin: relative integration tolerance
            m = sp.build(replace(a, x=0.0, y=0.0, psi=a.psi % 6.283))
            a = replace(m.get_state())
        if kind in W.DYN and not straight and (abs(a.vy) > 0.3 * a.vx or a.vx < 1):
            break
        if kind in ("spacecraft", "rocket", "spaceship") and abs(a.dpsi) > 8:
            break  # spinning too fast for the comparison of speeds


def limits(kind, p):
    if kind in W.KIN + W.DYN:
        return dict(acc=p.acc_limits, ddelta=(-p.ddelta_max, p.ddelta_max))
    if kind == "pedestrian":
        return dict(acc=p.acc_limits, dpsi=(-p.dtheta_max, p.dtheta_max))
    if kind == "diff":
        return dict(omega_l=p.omega_limits, omega_r=p.omega_limits)
    if kind == "spacecraft":
        return dict(acc_left=p.acc_limits, acc_right=p.acc_limits)
    if kind == "rocket":
        return dict(F_left=p.F_limits, F_right=p.F_limits, dphi=p.ddelta_limits)
    if kind == "spaceship":
        return dict(thrust=p.thrust_limits, ddelta=p.ddelta_limits)
    return dict(acc_x=p.acc_limits, acc_y=p.acc_limits, acc_psi=p.ddpsi_limits)


RATE = {"acc": "vx", "ddelta": "delta", "dphi": "phi", "acc_psi": "dpsi"}


def pairs(c):
    kind = W.KINDS[c.index % len(W.KINDS)]
    sp = W.spec(c, kind, at=(c.u(-1, 1), c.u(-1, 1), c.ang()), inner=0.5)
    if kind in W.DYN:
        sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.5))
    if kind == "obstacle":
        sp.x0 = replace(sp.x0, dpsi=0.0)  # the limits act on the sum of command and rotation of the frame
    lim = limits(kind, sp.p)
    dt = D(c.pick(("0.01", "0.02", "0.05")))
    u = W.command(c, kind, sp.p)
    hi = {n: (c.pick(lim[n]), 0) for n in lim if c.chance(0.6)} or {c.pick(list(lim)): None}
    if kind == "obstacle" and ("acc_x" in hi or "acc_y" in hi):
        hi.pop("acc_psi", None)
        u = replace(u, acc_psi=0.0)
    over, at = {}, {}
    for n in hi:
        side = c.int(0, 1)
        at[n] = lim[n][side]
        over[n] = lim[n][side] + (1 if side else -1) * 10 ** c.u(-2, 8)
    c.note(kind=kind, x0=sp.x0, p=sp.p, u=u, over=over, at=at, dt=dt)
    a, b = sp.build(), sp.build()
    a.update(replace(u, **over), dt)
    b.update(replace(u, **at), dt)
    x, y = W.as_dict(a.get_state()), W.as_dict(b.get_state())
    big = {n: abs(y[n] - getattr(sp.x0, n)) for n in x}
    for n in x:
        t = (0.03 if kind in W.DYN else 1e-3) * big[n] + (2e-3 if kind in W.DYN else 1e-6)
        c.close(x[n], y[n], f"{kind}: a saturated command acts like the limit value, component {n}", atol=t, rtol=0)
    c.count("saturated pairs")
    c.situation(kind, "saturated")
    # within limits: applied unchanged
    m = sp.build()
    u = replace(u, **{n: at[n] for n in at if c.chance(0.3)})
    m.update(u, dt)
    st = m.get_state()
    for n, s in RATE.items():
        if hasattr(u, n) and hasattr(st, s) and not (kind in W.DYN and s == "vx"):
            if kind == "pedestrian" and n == "dpsi":
                continue
            c.close(getattr(st, s) - getattr(sp.x0, s), getattr(u, n) * float(dt), f"{kind}: command {n} within limits is applied unchanged",
                    atol=1e-9, rtol=1e-6)
            c.count("inner pairs")
    if kind == "pedestrian":
        c.close(st.psi - sp.x0.psi, u.dpsi * float(dt), "pedestrian: turning rate within limits is applied unchanged", atol=1e-9, rtol=1e-6)
        c.count("inner pairs")
    if kind == "diff":
        r = sp.g.wheelradius
        c.close(st.psi - sp.x0.psi, r * (u.omega_r - u.omega_l) / sp.g.wheelbase * float(dt), "diff: wheel speeds within limits are applied unchanged",
                atol=1e-9, rtol=1e-6)
        d = (st.x - sp.x0.x) ** 2 + (st.y - sp.x0.y) ** 2
        c.close(d**0.5, abs(r * (u.omega_r + u.omega_l) / 2 * float(dt)), "diff: wheel speeds within limits are applied unchanged", atol=1e-5, rtol=1e-2)
        c.count("inner pairs")
    if kind in ("rocket", "spaceship"):
        f = u.F_left + u.F_right if kind == "rocket" else u.thrust
        c.close(st.m - sp.x0.m, -sp.p.C_T * f * float(dt), f"{kind}: thrust within limits is applied unchanged", atol=1e-9, rtol=1e-6)
        c.count("inner pairs")
    c.situation(kind, "inner")


LIMITED = {  # limited component: its limits, the command that moves it
    "vehicle": {"vx": ("vx_limits", "acc"), "delta": ("delta_max", "ddelta")}, "pedestrian": {"vx": ("vx_limits", "acc")},
    "obstacle": {"dpsi": ("dpsi_limits", "acc_psi")}, "spacecraft": {"dpsi": ("dpsi_limits", None)},
    "rocket": {"phi": ("delta_limits", "dphi")}, "spaceship": {"delta": ("delta_limits", "ddelta")}}
RELEASED = [k for k in W.KINDS if k != "diff"]


def released(c):
    """A limit only stops what pushes against it: a command that leads away from it acts as it does anywhere else"""
    kind = RELEASED[c.index % len(RELEASED)]
    sp = W.spec(c, kind, at=(c.u(-1, 1), c.u(-1, 1), c.ang()), inner=0.5)
    comps = dict(LIMITED["vehicle" if kind in W.KIN + W.DYN else kind])
    if kind in W.DYN:
        sp.x0 = replace(sp.x0, vy=0.0, dpsi=0.0)
        del comps["vx"]  # tyres and drag act as well
    n = c.pick(sorted(comps))
    lims, cmd = comps[n]
    lo, hi = (-sp.p.delta_max, sp.p.delta_max) if lims == "delta_max" else getattr(sp.p, lims)
    side = c.int(0, 1)
    dt = D(c.pick(("0.01", "0.05", "0.1")))
    u = W.command(c, kind, sp.p)
    if kind == "spacecraft":
        a = max(abs(v) for v in sp.p.acc_limits) * c.u(0.1, 0.9)
        u = replace(u, acc_left=a if side else -a, acc_right=-a if side else a)
        u = replace(u, acc_left=min(max(u.acc_left, sp.p.acc_limits[0]), sp.p.acc_limits[1]), acc_right=min(max(u.acc_right, sp.p.acc_limits[0]), sp.p.acc_limits[1]))
        if not (u.acc_right - u.acc_left) * (-1 if side else 1) > 0:
            return
    else:
        r = limits(kind, sp.p)[cmd]
        v = (r[0] if side else r[1]) * c.pick([1.0, 0.5, 0.1, 0.01])
        if v * (-1 if side else 1) <= 0:
            return
        u = replace(u, **{cmd: v})
    if kind == "obstacle":
        u = replace(u, acc_x=0.0, acc_y=0.0)
    how = c.pick(["at the limit", "at the limit", "driven there"])
    x = replace(sp.x0, **{n: hi if side else lo})
    if kind in W.KIN and c.chance(0.5):
        other = "delta" if n == "vx" else "vx"
        x = replace(x, **{other: c.pick([-sp.p.delta_max, sp.p.delta_max] if other == "delta" else list(sp.p.vx_limits))})
    m = sp.build(x)
    if how == "driven there":
        push = replace(u, **({cmd: -u.__dict__[cmd] * 3} if cmd else dict(acc_left=u.acc_right, acc_right=u.acc_left)))
        m = sp.build(replace(x, **{n: (hi - 0.02 * (hi - lo)) if side else (lo + 0.02 * (hi - lo))}))
        for _ in range(12):
            m.update(push, dt)
    before = getattr(m.get_state(), n)
    if not ((before >= hi - 1e-12) if side else (before <= lo + 1e-12)):
        return
    m.update(u, dt)
    got = getattr(m.get_state(), n) - before
    ref = sp.build(replace(sp.x0, **{n: (lo + hi) / 2}))
    ref.update(u, dt)
    want = getattr(ref.get_state(), n) - (lo + hi) / 2
    if abs(want) > 0.45 * (hi - lo):
        return
    c.note(kind=kind, component=n, limits=(lo, hi), start=before, u=u, dt=dt, how=how)
    c.close(got, want, f"{kind}: a command that leads away from the limit of {n} acts as it does anywhere else", atol=1e-7, rtol=1e-3 if kind in ("rocket", "spaceship", "spacecraft") else 1e-5)
    c.count("released")
    c.situation(kind, "released", n, side, how)


FAMILIES = [("released", released, 440, 8000), ("extreme commands", run, 600, 15000), ("pairs", pairs, 720, 15000)]
