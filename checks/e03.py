"""E03: goal-lane evaluation always answers and answers correctly."""
import math
from decimal import Decimal as D

import numpy as np

from vlib import roads as R
from vlib.core import rot, wrap
from dg_commons import DgSampledSequence
from dg_commons.eval.efficiency import desired_lane_reached, time_goal_lane_reached
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.goals import RefLaneGoal
from dg_commons.sim.models.vehicle import VehicleState

ID = "E03"
RULE = ("distinct (shape of the road network, place of the state relative to the goal lane, cause of the expected answer) classes in which the goal-lane "
        "evaluation had to answer, and to answer as known by construction")
REQUIRE = {"answers": 1500, "reached": 400, "off to the side": 200, "misaligned": 200, "on another lane of the road": 300, "loops": 150, "kinks": 80, "times": 80, "never reached": 15, "goal itself": 30, "narrow lanes": 150, "evaluations in a row": 1000}
MIN_SITUATIONS = 30
CPU_LIMIT = 60


class Road:
    """a chain of lanelets along one centre line"""

    def __init__(self, c, first=1, kink=0.0, shift=0.0, kmax=0.012, lanes=None, start=None):
        k = lanes or c.int(1, 5)
        x = start or (c.u(-30, 30), c.u(-30, 30), c.ang())
        self.ids = [first + i for i in range(k)]
        self.pieces, lets = [], []
        for i in range(k):
            n, ds = c.int(3, 8), c.u(2, 5)
            kmax_i = c.pick([0.0, kmax])
            pts, ths = R.centerline(c, n=n, ds=ds, kmax=kmax_i or 1e-3, start=x, uniform=True, straight=kmax_i == 0)
            self.pieces.append((pts, ths))
            x = (*pts[-1], ths[-1] + (c.sign() * kink if kink else 0.0))
        self.r = c.pick([c.u(1.6, 2.4), c.u(1.6, 2.4), c.u(1.6, 2.4), c.u(0.35, 0.9)])
        if self.r < 1:
            c.count("narrow lanes")
        for i, (pts, ths) in enumerate(self.pieces):
            lets.append(R.lanelet(self.ids[i], pts, ths, np.full(len(pts), self.r), [self.ids[i - 1]] if i else [], [self.ids[i + 1]] if i < k - 1 else []))
        self.lets = lets

    def length(self, i):
        return float(np.hypot(*np.diff(self.pieces[i][0], axis=0).T).sum())

    def pose(self, i, s):
        """pose at distance s along lane i (points are dense on gentle arcs: chords suffice)"""
        pts, ths = self.pieces[i]
        d = np.concatenate([[0], np.cumsum(np.hypot(*np.diff(pts, axis=0).T))])
        j = min(int(np.searchsorted(d, s, side="right")) - 1, len(pts) - 2)
        a = (s - d[j]) / (d[j + 1] - d[j])
        f = wrap(ths[j + 1] - ths[j])
        h = d[j + 1] - d[j]
        bulge = f * h / 2 * a * (1 - a)  # of an arc over its chord
        t = math.atan2(*(pts[j + 1] - pts[j])[::-1])
        p = pts[j] + a * (pts[j + 1] - pts[j]) + bulge * np.array([math.sin(t), -math.cos(t)])
        return np.array([p[0], p[1], ths[j] + a * f])


def beside(q, off, dth):
    return VehicleState(x=float(q[0] - off * math.sin(q[2])), y=float(q[1] + off * math.cos(q[2])), psi=float(q[2] + dth), vx=3.0, delta=0.0)


def goal_of(c, lane):
    L = lane.get_lane_length()
    return RefLaneGoal(lane, c.pick([L, c.u(0.2, 1) * L]))


def answer(c, net, goal, s, pos, head):
    r = desired_lane_reached(net, goal, s, pos, head)
    c.count("answers")
    return bool(r)


def tolerances(c):
    return c.pick([(0.8, 0.08), (c.u(0.3, 1.4), c.u(0.07, 0.3))])


def place(c, pos, head):
    """(lateral offset, heading error, expected answer, why)"""
    why = c.pick(["reached", "reached", "off to the side", "misaligned"])
    if why == "reached":
        return c.u(-1, 1) * (pos - 0.1), c.u(-1, 1) * (head - 0.05), True, why
    if why == "off to the side":
        return c.sign() * c.u(pos + 0.1, 6), c.u(-1, 1) * (head - 0.05), False, why
    return c.u(-1, 1) * (pos - 0.1), c.sign() * c.u(head + 0.05, math.pi), False, why


def judge(c, net, goal, s, pos, head, want, why, **kw):
    got = answer(c, net, goal, s, pos, head)
    if goal.is_fulfilled(s):
        c.true(got, "a fulfilled goal is reached", state=s, **kw)
        c.count("goal itself")
        return "goal itself"
    c.eq(got, want, f"goal lane reached ({why})", state=s, tolerances=(pos, head), **kw)
    c.count(why)
    return why


def chain(c):
    kinked = c.chance(0.25)
    road = Road(c, kink=c.u(0.1, 0.5) if kinked else 0.0)
    net = R.scenario(road.lets).lanelet_network
    g = c.int(0, len(road.ids) - 1)
    lane = DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(road.ids[g]))
    goal = goal_of(c, lane)
    for _ in range(8):
        pos, head = tolerances(c)
        i = c.int(0, len(road.ids) - 1)
        if kinked and abs(i - g) > 1:
            i = g
        L = road.length(i)
        m = min(3.0, 0.3 * L) if kinked else 0.05
        off, dth, want, why = place(c, min(pos, road.r), head)
        if kinked and m < 3 and i != g:
            continue
        if kinked and abs(off) > 1.5:
            off = math.copysign(1.5, off)
            if why == "off to the side" and pos > 1.3:
                continue
        s = beside(road.pose(i, c.u(m, L - m)), off, dth)
        why = judge(c, net, goal, s, pos, head, want, why, lane=i, goal_lane=g, lanes=len(road.ids))
        if i != g:
            c.count("on another lane of the road")
        c.situation("kinked" if kinked else "smooth", "goal" if i == g else "after" if i > g else "before", min(abs(i - g), 3), why)
    c.count("kinks" if kinked else "smooth chains")


def joint(c):
    """states around the kinked joints of a road: there has to be an answer"""
    road = Road(c, kink=c.u(0.05, 1.2), lanes=c.int(2, 5))
    net = R.scenario(road.lets).lanelet_network
    g = c.int(0, len(road.ids) - 1)
    goal = goal_of(c, DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(road.ids[g])))
    for _ in range(8):
        i = c.int(0, len(road.ids) - 1)
        q = road.pose(i, c.pick([0.0, road.length(i) * 0.9999]))
        s = VehicleState(x=float(q[0] + c.u(-6, 6)), y=float(q[1] + c.u(-6, 6)), psi=float(q[2] + c.u(-1, 1)), vx=1.0, delta=0.0)
        pos, head = tolerances(c)
        got = answer(c, net, goal, s, pos, head)
        if goal.is_fulfilled(s):
            c.true(got, "a fulfilled goal is reached", state=s)
        c.situation("joint", "goal" if i == g else "next" if i == g + 1 else "previous" if i == g - 1 else "other", got)
    c.count("kinks")


def parallel(c):
    """a neighbouring road is another road"""
    a = Road(c, kmax=0.004)
    w = a.r * 2
    lets = list(a.lets)
    other = []
    for i, (pts, ths) in enumerate(a.pieces):
        off = np.stack([-np.sin(ths), np.cos(ths)], 1) * w
        k = len(a.pieces)
        other.append((pts + off, ths))
        lets.append(R.lanelet(101 + i, pts + off, ths, np.full(len(pts), a.r), [100 + i] if i else [], [102 + i] if i < k - 1 else [], adjacent_right=a.ids[i], adjacent_right_same_direction=True))
    net = R.scenario(lets).lanelet_network
    g = c.int(0, len(a.ids) - 1)
    goal = goal_of(c, DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(a.ids[g])))
    for _ in range(6):
        pos, head = tolerances(c)
        i = c.int(0, len(a.ids) - 1)
        q = a.pose(i, c.u(0.05, 0.95) * a.length(i))
        on_goal_road = c.chance(0.4)
        s = beside(q, c.u(-0.15, 0.15) + (0 if on_goal_road else w), c.u(-1, 1) * (head - 0.05))
        why = judge(c, net, goal, s, pos, head, on_goal_road, "reached" if on_goal_road else "off to the side", lane=i, goal_lane=g)
        c.situation("parallel", "own" if on_goal_road else "neighbour", why, "goal" if i == g else "other")


def loop(c):
    """closed roads: there has to be an answer"""
    n = c.int(2, 9)
    radius = c.u(12, 40)
    cw = c.chance(0.5)
    lets = R.ring(c, first=1, n=n, radius=radius, r=2.0, at=(c.u(-20, 20), c.u(-20, 20)), phase=c.ang(), cw=cw, m=c.int(5, 12))
    net = R.scenario(lets).lanelet_network
    g = c.int(0, n - 1)
    goal = goal_of(c, DgLanelet.from_commonroad_lanelet(lets[g]))
    centre = np.mean([l.center_vertices.mean(axis=0) for l in lets], axis=0)
    for _ in range(6):
        pos, head = tolerances(c)
        where = c.pick(["middle", "anywhere", "far", "on the goal lane", "on the road", "on the next lane"])
        if where == "on the next lane" and n < 4:
            where = "on the goal lane"
        if where in ("on the goal lane", "on the road", "on the next lane"):
            l = lets[g if where == "on the goal lane" else (g + 1) % n if where == "on the next lane" else c.int(0, n - 1)]
            j = c.int(1, len(l.center_vertices) - 2)
            a, b = l.center_vertices[j - 1], l.center_vertices[j + 1]
            q = (*l.center_vertices[j], math.atan2(*(b - a)[::-1]))
            off, dth, want, why = place(c, pos, head)
            s = beside(q, off, dth)
            if where == "on the goal lane" and n >= 4 and abs(off) < 4 or where == "on the next lane" and abs(off) < 3:
                why = judge(c, net, goal, s, pos, head, want, why, where=where, n=n, radius=radius)
            elif why != "reached":
                why = judge(c, net, goal, s, pos, head, False, why, where=where, n=n, radius=radius) if why == "off to the side" and abs(off) < 4 and n >= 4 and where != "on the road" else "answered"
                if why == "answered":
                    answer(c, net, goal, s, pos, head)
            else:
                answer(c, net, goal, s, pos, head)
                why = "answered"
        else:
            p = centre + (c.u(0, 3) if where == "middle" else c.u(0, 2 * radius) if where == "anywhere" else c.u(100, 500)) * np.array([math.cos(t := c.ang()), math.sin(t)])
            answer(c, net, goal, VehicleState(x=float(p[0]), y=float(p[1]), psi=c.ang(), vx=1.0, delta=0.0), pos, head)
            why = "answered"
        c.count("loops")
        c.situation("loop", n, where, why)


def times(c):
    """a drive with a known first time of being on the goal's road"""
    road = Road(c)
    net = R.scenario(road.lets).lanelet_network
    g = c.int(0, len(road.ids) - 1)
    lane = DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(road.ids[g]))
    goal = goal_of(c, lane)
    kind = c.pick([D("0.1"), D("0.25"), D("0.0125"), D("0.0333"), 0.1, 0.0371, c.u(0.001, 0.2), 1])
    n = c.int(1, 12)
    t0 = c.pick([0, 0, 3])
    ts = [t0 + i * kind for i in range(n)]
    states, expect = [], None
    kw = {} if c.chance(0.5) else dict(zip(("pos_tol", "heading_tol"), tolerances(c)))
    pos, head = kw.get("pos_tol", 0.8), kw.get("heading_tol", 0.08)
    chance = c.pick([0.0, 0.15, 0.5, 1.0])
    i = c.int(0, len(road.ids) - 1)
    for k, t in enumerate(ts):
        while True:
            off, dth, want, why = place(c, min(pos, road.r), head)
            if want == c.chance(chance):
                break
        s = beside(road.pose(i, c.u(0.05, 0.95) * road.length(i)), off, dth)
        states.append(s)
        if expect is None and (want or goal.is_fulfilled(s)):
            expect = t
    got = time_goal_lane_reached(net, goal, DgSampledSequence[VehicleState](timestamps=ts, values=states), **kw)
    if expect is None:
        c.true(got is None, "no time is reported if the lane is never reached", got=got)
        c.count("never reached")
    else:
        c.true(got is not None, "a time is reported if the lane is reached", expected=expect)
        c.close(float(got), float(expect), "the first logged time on the goal's road", atol=1e-12, times=ts)
    c.count("times")
    c.situation("times", "never" if expect is None else "first" if expect == ts[0] else "later", type(kind).__name__, "custom" if kw else "default")


def evaluations(c):
    """many evaluations on one network: what was looked up before does not matter"""
    road = Road(c, lanes=c.int(6, 10))
    net = R.scenario(road.lets).lanelet_network
    k = len(road.ids)
    keep = c.chance(0.3)  # all goals stay around
    goals = []
    for j in range(c.int(60, 90)):
        g = c.int(0, k - 1)
        goal = goal_of(c, DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(road.ids[g])))
        if keep:
            goals.append(goal)
        pos, head = tolerances(c)
        i = c.int(0, k - 1)
        L = road.length(i)
        off, dth, want, why = place(c, min(pos, road.r), head)
        s = beside(road.pose(i, c.u(0.05, L - 0.05)), off, dth)
        why = judge(c, net, goal, s, pos, head, want, why, lane=i, goal_lane=g, lanes=k, before=j)
        c.count("evaluations in a row")
    c.situation("in a row", k, "goals kept" if keep else "")


FAMILIES = [("evaluations", evaluations, 32, 300), ("chain", chain, 800, 8000), ("joint", joint, 200, 2000), ("parallel", parallel, 200, 2000), ("loop", loop, 200, 2500), ("times", times, 400, 4000)]
