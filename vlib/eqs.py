"""The documented equations of motion of the models, written down a second time, and a fine integrator."""
import math

import numpy as np

from vlib import world as W


_FLAGS = []  # which limits are active, recorded while evaluating the equations


def sat(u, lim):
    near = 0.02 * (lim[1] - lim[0])
    _FLAGS.append(9 if min(abs(u - lim[0]), abs(u - lim[1])) < near else (u > lim[0]) + (u >= lim[1]))
    return min(max(u, lim[0]), lim[1])


def _limited(v, a, lo, hi):
    """no further push beyond a limit that has been reached"""
    hit = (v <= lo and a < 0) or (v >= hi and a > 0)
    near = 0.03 * (hi - lo)
    _FLAGS.append(hit or ((a < 0 and v < lo + near) or (a > 0 and v > hi - near)) * 9)
    return 0.0 if hit else a


def rhs(kind, g, p, y, u):
    """Time derivative of the state vector y (dict) under command u (dict): dict"""
    c, s = math.cos(y["psi"]), math.sin(y["psi"])
    if kind in W.KIN:
        w = y["vx"] * math.tan(y["delta"]) / (g.lf + g.lr)
        vy = w * g.lr
        acc = _limited(y["vx"], sat(u["acc"], p.acc_limits), *p.vx_limits)
        dd = _limited(y["delta"], sat(u["ddelta"], (-p.ddelta_max, p.ddelta_max)), -p.delta_max, p.delta_max)
        return dict(x=y["vx"] * c - vy * s, y=y["vx"] * s + vy * c, psi=w, vx=acc, delta=dd)
    if kind == "pedestrian":
        acc = _limited(y["vx"], sat(u["acc"], p.acc_limits), *p.vx_limits)
        return dict(x=y["vx"] * c - y["vy"] * s, y=y["vx"] * s + y["vy"] * c, psi=sat(u["dpsi"], (-p.dtheta_max, p.dtheta_max)),
                    vx=acc, vy=0.0, dpsi=0.0)
    if kind == "diff":
        l, r = sat(u["omega_l"], p.omega_limits), sat(u["omega_r"], p.omega_limits)
        v = g.wheelradius * (l + r) / 2
        return dict(x=v * c, y=v * s, psi=g.wheelradius * (r - l) / g.wheelbase)
    if kind == "spacecraft":
        l, r = sat(u["acc_left"], p.acc_limits), sat(u["acc_right"], p.acc_limits)
        dd = _limited(y["dpsi"], g.w_half * g.m / g.Iz * (r - l), *p.dpsi_limits)
        return dict(x=y["vx"] * c - y["vy"] * s, y=y["vx"] * s + y["vy"] * c, psi=y["dpsi"],
                    vx=l + r + y["dpsi"] * y["vy"], vy=-y["dpsi"] * y["vx"], dpsi=dd)
    if kind == "rocket":
        on = y["m"] > p.m_v
        _FLAGS.append(on)
        l, r = (sat(u["F_left"], p.F_limits), sat(u["F_right"], p.F_limits)) if on else (0.0, 0.0)
        ph = y["phi"]
        dphi = _limited(ph, sat(u["dphi"], p.ddelta_limits), *p.delta_limits)
        return dict(x=y["vx"], y=y["vy"], psi=y["dpsi"], m=-p.C_T * (l + r), phi=dphi,
                    vx=(math.sin(ph + y["psi"]) * l + math.sin(ph - y["psi"]) * r) / y["m"],
                    vy=(-math.cos(ph + y["psi"]) * l + math.cos(ph - y["psi"]) * r) / y["m"],
                    dpsi=g.l_m * math.cos(ph) * (r - l) / g.Iz)
    if kind == "spaceship":
        on = y["m"] > p.m_v
        _FLAGS.append(on)
        t = sat(u["thrust"], p.thrust_limits) if on else 0.0
        d = y["delta"]
        dd = _limited(d, sat(u["ddelta"], p.ddelta_limits), *p.delta_limits)
        return dict(x=y["vx"] * c - y["vy"] * s, y=y["vx"] * s + y["vy"] * c, psi=y["dpsi"], m=-p.C_T * t, delta=dd,
                    vx=math.cos(d) * t / y["m"] + y["dpsi"] * y["vy"], vy=math.sin(d) * t / y["m"] - y["dpsi"] * y["vx"],
                    dpsi=-g.l_r * math.sin(d) * t / g.Iz)
    if kind == "obstacle":
        ax = _limited(y["vx"], sat(u["acc_x"] + y["dpsi"] * y["vy"], p.acc_limits), *p.vx_limits)
        ay = _limited(y["vy"], sat(u["acc_y"] - y["dpsi"] * y["vx"], p.acc_limits), *p.vx_limits)
        dd = _limited(y["dpsi"], sat(u["acc_psi"], p.ddpsi_limits), *p.dpsi_limits)
        return dict(x=y["vx"] * c - y["vy"] * s, y=y["vx"] * s + y["vy"] * c, psi=y["dpsi"], vx=ax, vy=ay, dpsi=dd)
    raise ValueError(kind)


def integrate(kind, g, p, state, command, dt, n=60):
    """Classical Runge-Kutta with n substeps; also tells whether no limit became (in)active on the way"""
    names = W.comps(state)
    y = W.vals(state)
    u = W.as_dict(command)

    def f(v):
        d = rhs(kind, g, p, dict(zip(names, v)), u)
        return np.array([d[k] for k in names])

    h = float(dt) / n
    modes = set()
    for _ in range(n):
        _FLAGS.clear()
        k1 = f(y)
        modes.add(tuple(_FLAGS))
        k2 = f(y + h / 2 * k1)
        k3 = f(y + h / 2 * k2)
        k4 = f(y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    _FLAGS.clear()
    f(y)
    modes.add(tuple(_FLAGS))
    return dict(zip(names, y)), len(modes) == 1
