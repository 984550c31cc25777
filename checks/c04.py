"""C04: combining collision reports."""
import math
from copy import deepcopy
from decimal import Decimal as D
from functools import reduce

import numpy as np
from shapely.geometry import Point, Polygon, box

from vlib import world as W
from vlib.core import same
from dg_commons import PlayerName
from dg_commons.sim import (CollisionReport, CollisionReportPlayer, IMPACT_BACK, IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_LEFT,
                            IMPACT_RIGHT, combine_collision_reports)
from vlib import contact as T
from vlib import simkit as K

ID = "C04"
RULE = ("distinct (operation, number of reports, parties without details, equal or distinct times, source) classes of combinations whose "
        "every field was compared with an independent summary")
REQUIRE = {"combinations": 1500, "refused": 100, "chains": 300, "chains from simulations": 8}
MIN_SITUATIONS = 20
LOCS = [IMPACT_FRONT, IMPACT_BACK, IMPACT_LEFT, IMPACT_RIGHT, IMPACT_EVERYWHERE]


def vel(c):
    if c.chance(0.2):  # brought to rest
        return np.zeros(2), c.pick([0.0, c.u(-2, 2)])
    return np.array([c.u(-9, 9), c.u(-9, 9)]), c.pick([0.0, c.u(-2, 2), c.u(-2, 2)])


def details(c):
    locs = [(c.pick(LOCS), box(c.u(0, 1), 0, c.u(2, 3), c.u(1, 2))) for _ in range(c.int(1, 3))]
    return CollisionReportPlayer(locations=locs, at_fault=c.chance(0.5), footprint=box(c.u(0, 1), 0, c.u(2, 3), c.u(1, 2)),
                                 velocity=vel(c), velocity_after=vel(c), energy_delta=c.u(-500, 50))


def report(c, players, t, bare=0.15):
    if c.chance(bare):
        return CollisionReport.get_empty(players={p: None for p in players}, at_time=t)
    return CollisionReport(players={p: (details(c) if not c.chance(bare / 2) else None) for p in players},
                           impact_point=Point(c.u(-9, 9), c.u(-9, 9)), impact_normal=np.array([c.u(-1, 1), c.u(-1, 1)]), at_time=t)


def view(r):
    """Plain data"""
    def pl(x):
        if x is None:
            return None
        return dict(loc=[(l, s.wkb_hex) for l, s in x.locations], fault=x.at_fault, foot=x.footprint.wkb_hex,
                    v=(list(map(float, x.velocity[0])), float(x.velocity[1])),
                    va=(list(map(float, x.velocity_after[0])), float(x.velocity_after[1])), e=float(x.energy_delta))

    return dict(t=r.at_time, P=None if r.impact_point is None else r.impact_point.wkb_hex,
                n=None if r.impact_normal is None else list(map(float, r.impact_normal)), players={p: pl(x) for p, x in r.players.items()})


def summary(rs):
    """What the combination of reports given in time order must be"""
    out = dict(t=rs[0]["t"], P=rs[0]["P"], n=rs[0]["n"], players={})
    for p in rs[0]["players"]:
        ds = [r["players"][p] for r in rs if r["players"][p] is not None]
        if not ds:
            out["players"][p] = None
            continue
        f, l = ds[0], ds[-1]
        out["players"][p] = dict(loc=[x for d in ds for x in d["loc"]], fault=f["fault"], foot=f["foot"], v=f["v"], va=l["va"],
                                 e=sum(d["e"] for d in ds))
    return out


def compare(c, got, ref, what):
    for k in ("t", "P", "n"):
        c.eq(got[k], ref[k], f"{what}: {dict(t='time', P='impact point', n='normal')[k]} of the earlier report")
    c.eq(set(got["players"]), set(ref["players"]), f"{what}: players")
    for p, d in ref["players"].items():
        g = got["players"][p]
        if d is None or g is None:
            c.true(d is g, f"{what}: party without details", got=g, expected=d)
            continue
        c.eq(sorted(g["loc"], key=str), sorted(d["loc"], key=str), f"{what}: all impact locations of all reports")
        c.eq(g["fault"], d["fault"], f"{what}: fault of the earlier report")
        c.eq(g["foot"], d["foot"], f"{what}: footprint of the earlier report")
        c.eq(g["v"], d["v"], f"{what}: velocities before of the earlier report")
        c.eq(g["va"], d["va"], f"{what}: velocities after of the later report")
        c.close(g["e"], d["e"], f"{what}: sum of the energy changes", atol=1e-8)


def names(c):
    return [PlayerName(x) for x in c.rng.sample(["P1", "P2", "Env", "Ego", "x"], c.int(1, 2) if c.chance(0.9) else 3)]


def group(c, rs):
    """Combines a chain in time order with a random bracketing and random argument order"""
    if len(rs) == 1:
        return rs[0]
    i = c.int(1, len(rs) - 1)
    a, b = group(c, rs[:i]), group(c, rs[i:])
    c.count("combinations")
    if a.at_time != b.at_time and c.chance(0.5):
        return combine_collision_reports(b, a)
    return combine_collision_reports(a, b)


def chain_check(c, rs, src):
    vs = [view(r) for r in rs]
    ref = summary(vs)
    for i in range(4):
        r = reduce(combine_collision_reports, rs) if i == 0 else group(c, rs)
        compare(c, view(r), ref, f"{len(rs)} reports, {'left to right' if i == 0 else 'random grouping'}")
    for r, v in zip(rs, vs):
        c.true(same(view(r), v), "combining reports modifies its inputs")
    c.count("chains")
    times = [v["t"] for v in vs]
    c.situation(src, len(rs), "bare" if any(x is None for v in vs for x in v["players"].values()) else "details",
                "ties" if len(set(times)) < len(times) else "distinct")


def chains(c):
    ps = names(c)
    n = c.int(2, 6)
    ts = sorted(D(c.int(0, 40)) / 20 for _ in range(n))
    if c.chance(0.2):
        ts = [ts[0]] * n
    if c.chance(0.3):
        ts = [float(t) for t in ts]
    rs = []
    for t in ts:
        c.rng.shuffle(ps)
        rs.append(report(c, ps, t))
    c.note(reports=[view(r) for r in rs])
    chain_check(c, rs, "random")
    # different players are refused
    other = list(ps)
    other[c.int(0, len(ps) - 1)] = PlayerName("someone else")
    if c.chance(0.3):
        other = ps + [PlayerName("one more")]
    elif c.chance(0.3) and len(ps) > 1:
        other = ps[:-1]
    q = report(c, other, ts[0])
    a, b = (rs[0], q) if c.chance(0.5) else (q, rs[0])
    c.raises(lambda: combine_collision_reports(a, b), "reports about different players are refused", players=(ps, other))
    c.count("refused")


def simulated(c):
    w = K.world(c, n=c.int(2, 4), spread=2.5, missions=0.0, obstacles=c.int(0, 1), max_steps=(8, 20), after=D(100))
    w.run()
    by = {}
    for r in w.ctx.collision_reports:
        by.setdefault(frozenset(r.players), []).append(r)
    for k, rs in by.items():
        if len(rs) > 1:
            rs = rs[:8]
            c.true(all(a.at_time <= b.at_time for a, b in zip(rs, rs[1:])), "reports are stored in time order")
            chain_check(c, rs, "simulation")
            c.count("chains from simulations")


FAMILIES = [("chains", chains, 400, 20000), ("simulated", simulated, 60, 800)]
