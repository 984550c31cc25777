"""R02: colors of the lights of a vehicle."""
import numpy as np

from vlib import world as W
from checks.r01 import BRIGHT, LIGHTS, ORANGE, RED, WHITE, YELLOW, lamps
from dg_commons.sim.models import vehicle_ligths as VL
from dg_commons.sim.models.vehicle import VehicleCommands
from dg_commons.sim.simulator_animation import get_lights_colors_from_cmds, lights_colors_from_lights_cmd

ID = "R02"
RULE = "distinct (light command, braking or not, blink phase, kind of time) classes for which the four lamp colors were compared with the reference"
REQUIRE = {"colors": 8000, "braking": 2000, "blinks": 80, "other models": 300, "time kinds": 1000}
MIN_SITUATIONS = 30
CMD = {"none": VL.NO_LIGHTS, "headlights": VL.LIGHTS_HEADLIGHTS, "turn_left": VL.LIGHTS_TURN_LEFT, "turn_right": VL.LIGHTS_TURN_RIGHT, "hazard": VL.LIGHTS_HAZARD}


def four(x):
    return tuple(tuple(float(a) for a in v) for v in (x.front_left, x.front_right, x.back_left, x.back_right))


def times(c):
    from decimal import Decimal as D

    t = c.pick([c.u(0, 5), c.u(0, 1e4), c.int(0, 400) * 0.05, c.int(0, 50) * 0.4])
    k = c.pick(["float", "int", "decimal", "np"])
    return k, {"float": t, "int": int(t), "decimal": D(str(round(t, 4))), "np": np.float64(t)}[k]


def history(c):
    """Colors depend on the present command, acceleration and time only, whatever was asked before"""
    for _ in range(60):
        name, (kind, t) = c.pick(LIGHTS), times(c)
        acc = c.pick([0.0, c.u(-8, 8), -1e-9, 1e-9, -0.0, -3, 3])
        if c.chance(0.5):
            got = lights_colors_from_lights_cmd(CMD[name], acc, t)
        else:
            got = get_lights_colors_from_cmds(VehicleCommands(acc=acc, ddelta=c.u(-1, 1), lights=CMD[name]), t)
        ok = lamps(name, acc, float(t))
        c.true(four(got) in ok, "colors of the lights", got=four(got), expected=ok, command=name, acc=acc, t=t)
        c.count("colors")
        c.count("time kinds")
        if acc < 0:
            c.count("braking")
            fl, fr, bl, br = four(got)
            for side, v in (("left", bl), ("right", br)):
                c.true(v in (BRIGHT, ORANGE), "a braking vehicle shows no dim rear light", side=side, got=v, command=name)
        c.situation(name, acc < 0, int(float(t) / 0.4 + 0.5) % 2, kind)


def blinking(c):
    """Over a long time: who blinks, how often, on which side"""
    name = LIGHTS[c.index % len(LIGHTS)]
    acc = c.pick([0.0, -2.0, 2.0])
    h = 0.01
    t0 = c.u(0, 100)
    cols = np.array([four(lights_colors_from_lights_cmd(CMD[name], acc, t0 + i * h)) for i in range(800)])
    on = [(np.abs(cols[:, k] - np.array(ORANGE)).max(axis=1) < 1e-12) for k in range(4)]
    left, right = name in ("turn_left", "hazard"), name in ("turn_right", "hazard")
    for k, blink in ((0, left), (1, right), (2, left), (3, right)):
        if blink:
            c.close(on[k].mean(), 0.5, "a blinking light is on half of the time", atol=0.06, command=name)
            flips = int((on[k][1:] != on[k][:-1]).sum())
            c.true(19 <= flips <= 21, "eight seconds hold ten periods", flips=flips, command=name)
            c.count("blinks")
        else:
            c.true(not on[k].any(), "lights that were not asked to blink do not", command=name, lamp=k)
    if name == "hazard":
        c.true(bool((on[0] == on[1]).all() and (on[0] == on[3]).all()), "hazard lights blink together")
    c.true(bool((on[0] == on[2]).all()) and bool((on[1] == on[3]).all()), "front and rear blink together", command=name)
    mirror = {"turn_left": "turn_right", "turn_right": "turn_left"}.get(name, name)
    for i in range(0, 800, 37):
        m = four(lights_colors_from_lights_cmd(CMD[mirror], acc, t0 + i * h))
        c.eq((m[1], m[0], m[3], m[2]), tuple(map(tuple, cols[i].tolist())), "left and right mirror each other", command=name)
        c.count("colors")
    c.situation("blinking", name, acc)


def others(c):
    """Models without lights have none"""
    for k in W.KINDS:
        if k in W.KIN + W.DYN:
            continue
        u = W.command(c, k, W.parameters(c, k))
        c.true(get_lights_colors_from_cmds(u, c.u(0, 9)) is None, "no lights", command=u)
        c.count("other models")
    c.eq(set(VL.LightsValues), set(CMD.values()), "the light commands")
    c.eq(set(VL.lightscmd2phases), set(CMD.values()), "every light command has its phases")
    c.situation("others")


FAMILIES = [("history", history, 200, 6000), ("blinking", blinking, 60, 600), ("others", others, 60, 100)]
