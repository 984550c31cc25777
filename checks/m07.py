"""M07: the reported velocity is the rate of change of the pose."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np

from vlib import contact as T
from vlib import world as W
from vlib.core import rot, wrap

ID = "M07"
RULE = ("distinct (model, situation, heading quadrant) classes in which the velocity reported before and after a short real update was compared "
        "with the displacement and the rotation that really happened")
REQUIRE = {"linear": 1500, "rotational": 1000, "after a velocity was set": 300}
MIN_SITUATIONS = 100
KINDS = [k for k in W.KINDS if k != "diff"]
TURNS = [k for k in KINDS if k != "pedestrian"]
H = D("0.001")


def compare(c, sp, m, u, what):
    k = sp.kind
    h = float(H)
    a = replace(m.get_state())
    va, wa = m.get_velocity(in_model_frame=False)
    la, _ = m.get_velocity(in_model_frame=True)
    va, la = np.array(va, float), np.array(la, float)
    T0 = np.asarray(m.get_pose())
    m.update(u, H)
    b = m.get_state()
    vb, wb = m.get_velocity(in_model_frame=False)
    vb = np.array(vb, float)
    T1 = np.asarray(m.get_pose())
    d = (T1[:2, 2] - T0[:2, 2]) / h
    tol = 0.6 * np.abs(vb - va).max() + 1e-4 * (1 + np.abs(va).max()) + (0.01 if k in W.DYN else 0.0)
    c.close(d, (va + vb) / 2, f"{k}: the velocity reported in the global frame is the derivative of the position", atol=tol, rtol=0, what=what,
            before=a, after=b)
    c.close(rot(math.atan2(T0[1, 0], T0[0, 0])) @ la, va, f"{k}: velocity in the body frame, turned by the heading", atol=1e-9, rtol=1e-9)
    quad = int((a.psi % (2 * math.pi)) // (math.pi / 2))
    c.count("linear")
    c.situation(k, what, quad)
    if k in TURNS and not (k in W.DYN and a.vx < 0.2):
        dth = wrap(math.atan2(T1[1, 0], T1[0, 0]) - math.atan2(T0[1, 0], T0[0, 0])) / h
        tol = 0.6 * abs(wb - wa) + 1e-4 * (1 + abs(wa)) + (0.01 if k in W.DYN else 0.0)
        c.close(dth, (wa + wb) / 2, f"{k}: the rotational velocity reported is the derivative of the heading", atol=tol, rtol=0, what=what, before=a)
        c.count("rotational")


def case(c):
    k = KINDS[c.index % len(KINDS)]
    sp = W.spec(c, k, at=(c.u(-2, 2), c.u(-2, 2), c.ang(2)))
    if k in W.DYN:
        sp.g = replace(sp.g, Iz=sp.g.m * sp.g.lf * sp.g.lr * c.u(0.8, 1.5))
        sp.x0 = replace(sp.x0, vx=max(sp.x0.vx, 0.5))
    c.note(kind=k, x0=sp.x0, g=sp.g, p=sp.p)
    m = sp.build()
    compare(c, sp, m, W.command(c, k, sp.p), "initial")
    for _ in range(c.int(1, 5)):
        m.update(W.command(c, k, sp.p), D(c.pick(["0.01", "0.05"])))
    if k in W.DYN and m.get_state().vx < 0.3:
        return
    compare(c, sp, m, W.command(c, k, sp.p), "later")
    if k in W.KIN:
        return
    # velocities set from outside, as a collision does, are those of the next instants
    v, w = np.array([c.u(0.5, 4), c.u(-0.5, 0.5)]), c.u(-0.4, 0.4)
    body = c.chance(0.5)
    if k in W.DYN or body:
        m.set_velocity(v, w, in_model_frame=True)
    else:
        m.set_velocity(rot(m.get_state().psi) @ v, w, in_model_frame=False)
    p0 = np.asarray(m.get_pose())[:2, 2].copy()
    th = m.get_state().psi
    m2_v, _ = m.get_velocity(in_model_frame=False)
    c.close(np.array(m2_v, float), rot(th) @ v, f"{k}: velocity set is the velocity reported", atol=1e-9)
    compare(c, sp, m, W.zero_command(k), "velocity set")
    q = (np.asarray(m.get_pose())[:2, 2] - p0) / float(H)
    c.close(q, rot(th) @ v, f"{k}: the body moves with the velocity that was set", atol=0.05 + (0.1 if k in W.DYN else 0.0))
    c.count("after a velocity was set")


FAMILIES = [("finite differences", case, 900, 20000)]
