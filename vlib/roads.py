"""Synthetic lanes, lanelets and CommonRoad scenarios."""
from __future__ import annotations

import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.scenario import Scenario

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint


def centerline(c, n=None, ds=None, kmax=0.05, start=None, uniform=None, straight=False):
    """Points and headings along a smooth curve: circular arcs whose curvature changes slowly"""
    n = c.int(4, 30) if n is None else n
    ds = c.u(0.5, 5) if ds is None else ds
    uniform = c.chance(0.5) if uniform is None else uniform
    x, y, th = (c.u(-50, 50), c.u(-50, 50), c.ang()) if start is None else start
    k = 0.0 if straight else c.u(-kmax, kmax)
    pts, ths = [(x, y)], [th]
    for _ in range(n - 1):
        h = ds if uniform else ds * c.u(0.3, 1.8)
        if not straight:
            k = min(max(k + c.u(-0.25, 0.25) * kmax, -kmax), kmax)
        # exact arc
        if abs(k) < 1e-9:
            x, y = x + h * math.cos(th), y + h * math.sin(th)
        else:
            x += (math.sin(th + k * h) - math.sin(th)) / k
            y += (-math.cos(th + k * h) + math.cos(th)) / k
            th += k * h
        pts.append((x, y))
        ths.append(th)
    return np.array(pts), np.array(ths)


def widths(c, n, lo=1.2, hi=3.0, varying=None):
    varying = c.chance(0.5) if varying is None else varying
    if not varying:
        return np.full(n, c.u(lo, hi))
    w = [c.u(lo, hi)]
    for _ in range(n - 1):
        w.append(min(max(w[-1] + c.u(-0.2, 0.2), lo), hi))
    return np.array(w)


def dg_lane(pts, ths, rs) -> DgLanelet:
    return DgLanelet([LaneCtrPoint(SE2Transform(np.array(p, dtype=float), float(t)), r=float(r)) for p, t, r in zip(pts, ths, rs)])


def lane(c, **kw):
    w = kw.pop("w", None)
    pts, ths = centerline(c, **kw)
    rs = widths(c, len(pts)) if w is None else np.full(len(pts), w)
    return dg_lane(pts, ths, rs), pts, ths, rs


def sides(pts, ths, rs):
    nrm = np.stack([-np.sin(ths), np.cos(ths)], axis=1)
    return pts + nrm * rs[:, None], pts - nrm * rs[:, None]


def lanelet(lid, pts, ths, rs, pred=(), succ=(), **kw) -> Lanelet:
    left, right = sides(np.asarray(pts, float), np.asarray(ths, float), np.asarray(rs, float))
    return Lanelet(left_vertices=left, center_vertices=np.asarray(pts, float), right_vertices=right, lanelet_id=lid,
                   predecessor=list(pred), successor=list(succ), **kw)


def straight(lid, a, b, r=2.0, n=5, pred=(), succ=()):
    a, b = np.array(a, float), np.array(b, float)
    th = math.atan2(*(b - a)[::-1])
    pts = np.array([a + (b - a) * s for s in np.linspace(0, 1, n)])
    return lanelet(lid, pts, np.full(n, th), np.full(n, r), pred, succ)


def scenario(lanelets, dt=0.1) -> Scenario:
    sc = Scenario(dt=dt)
    sc.add_objects(list(lanelets))
    return sc


def ring(c, first=1, n=8, radius=20.0, r=2.0, at=(0.0, 0.0), phase=0.0, cw=False, m=7):
    """A closed loop of n lanelets"""
    out = []
    s = -1 if cw else 1
    for i in range(n):
        an = phase + s * 2 * math.pi * (i + np.linspace(0, 1, m)) / n
        pts = np.stack([at[0] + radius * np.cos(an), at[1] + radius * np.sin(an)], axis=1)
        ths = an + s * math.pi / 2
        out.append(lanelet(first + i, pts, ths, np.full(m, r), [first + (i - 1) % n], [first + (i + 1) % n]))
    return out
