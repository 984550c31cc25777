"""L01: lane coordinates are consistent."""
import gc
import math
import sys
import threading

import numpy as np

from vlib import roads as R
from vlib.core import wrap
from vlib.curve import Curve
from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet

ID = "L01"
RULE = ("distinct (lane construction, shape, place along the lane, kind of workload) classes in which coordinates of real lanes were compared with an "
        "independent constant-twist reference and with each other")
REQUIRE = {"conversions": 5000, "control points": 3000, "continuity": 3000, "cached lanes": 4000, "threaded queries": 4000, "built from vertices": 80, "relatives": 100}
MIN_SITUATIONS = 30
CPU_LIMIT = 300


def shape(c):
    k = c.pick(["straight", "gentle", "gentle", "sharp", "wavy", "two points", "long"])
    if k == "straight":
        pts, ths = R.centerline(c, straight=True)
    elif k == "gentle":
        pts, ths = R.centerline(c)
    elif k == "sharp":
        pts, ths = R.centerline(c, kmax=0.6, ds=c.u(0.3, 1.5))
    elif k == "two points":
        pts, ths = R.centerline(c, n=2)
    elif k == "long":
        pts, ths = R.centerline(c, n=c.int(60, 120), ds=c.u(0.3, 3), kmax=0.02)
    else:  # headings that are not those of an arc
        pts, ths = R.centerline(c)
        ths = ths + np.array([c.u(-0.4, 0.4) for _ in ths])
    # the same heading may be written in many ways
    if c.chance(0.5):
        ths = np.array([wrap(t) for t in ths])
    return k, pts, ths, R.widths(c, len(pts))


def compare(c, lane, ref, k, betas=None):
    n = ref.n
    scale = 1 + ref.L + np.abs(np.array(ref.q)[:, :2]).max()
    tol = 1e-9 * scale
    c.close(lane.get_lane_lengths(), ref.lengths, "segment lengths", atol=tol, rtol=1e-7)
    c.close(lane.get_lane_length(), math.fsum(lane.get_lane_lengths()), "lane length is the sum of its segments", atol=tol)
    L = lane.get_lane_length()
    c.close(lane.along_lane_from_beta(0), 0, "zero at the first control point", atol=1e-12)
    c.close(lane.along_lane_from_beta(n - 1), L, "lane length at the last control point", atol=tol)
    c.close(lane.beta_from_along_lane(0), 0, "first control point at zero", atol=1e-12)
    c.close(lane.beta_from_along_lane(L), n - 1, "last control point at the lane length", atol=1e-7)
    for i in range(n):
        q = lane.center_point(i)
        e = ref.q[i]
        c.close(q[:2, 2], e[:2], "centre point at a control point", atol=tol, i=i)
        c.close(q[:2, 0], [math.cos(e[2]), math.sin(e[2])], "heading at a control point", atol=1e-8, i=i)
        c.close(lane.radius(i), ref.r[i], "half-width at a control point", atol=1e-12, i=i)
        f = lane.center_point_fast_SE2Transform(i)
        c.close(f.p, e[:2], "linear centre point at a control point", atol=tol, i=i)
        c.close(wrap(f.theta - e[2]), 0, "linear heading at a control point", atol=1e-8, i=i)
        c.count("control points")
    if betas is None:
        betas = [c.u(0, n - 1) for _ in range(8)] + [c.u(-5, 0), c.u(n - 1, n + 4)]
        for i in (0, n - 1, c.int(0, n - 1)):
            betas += [i, i - 1e-6, i + 1e-6]
    prev = None
    for b in sorted(betas):
        s = lane.along_lane_from_beta(b)
        c.close(s, ref.s(b), "travelled distance at a control-point progress", atol=tol, rtol=1e-8, beta=b)
        c.close(lane.beta_from_along_lane(s), b, "progress from distance from progress", atol=2e-7, beta=b, s=s)
        q, e = lane.center_point(b), ref.at(b)
        # strictly increasing
        if prev is not None and b > prev[0]:
            c.true(s > prev[1], "travelled distance is strictly increasing", betas=(prev[0], b), s=(prev[1], s))
            # what is travelled is really there: no chord is longer than the distance travelled
            c.le(math.hypot(*(q[:2, 2] - prev[2])), (s - prev[1]) * (1 + 1e-6) + tol * 10, "distance travelled covers the way between two centre points", betas=(prev[0], b))
        prev = (b, s, q[:2, 2])
        c.count("conversions")
        c.situation("conversion", k, "before" if b < 0 else "after" if b > n - 1 else "at" if b == int(b) else "close" if abs(b - round(b)) < 1e-5 else "between")
        # neighbours
        h = 1e-4
        local = ref.lengths[min(max(int(math.floor(b)), 0), n - 2)]
        nbr = max([1.0] + ref.lengths[max(0, int(b) - 1): max(0, int(b) + 2)])
        q2 = lane.center_point(b + h)
        c.le(math.hypot(*(q2[:2, 2] - q[:2, 2])), 1.5 * nbr * h + tol * 10, "centre points are continuous", beta=b)
        i = min(max(int(math.floor(b)), 0), n - 2)
        turn = max(abs(f) for _, f in ref.tw[max(0, i - 1): i + 2])
        c.le(float(np.abs(q2[:2, 0] - q[:2, 0]).max()), 1.5 * turn * h + 1e-7, "headings are continuous", beta=b)
        c.le(abs(lane.radius(b + h) - lane.radius(b)), max(abs(x - y) for x, y in zip(ref.r, ref.r[1:])) * h + 1e-9, "half-widths are continuous", beta=b)
        f1, f2 = lane.center_point_fast_SE2Transform(b), lane.center_point_fast_SE2Transform(b + h)
        c.le(math.hypot(*(f2.p - f1.p)), 1.5 * nbr * h + tol * 10, "linear centre points are continuous", beta=b)
        c.le(abs(wrap(f1.theta - e[2])), (abs(ref.tw[i][1]) if 0 <= b <= n - 1 else 0) + 1e-6, "linear heading between those of the neighbouring control points", beta=b, heading=f1.theta)
        c.count("continuity")
        r = lane.radius(b)
        lo, hi = ref.r[i], ref.r[i + 1]
        c.true(min(ref.r) - 1e-9 <= r <= max(ref.r) + 1e-9, "half-width between those of the control points", beta=b)
        if 0 < b < n - 1 and local > 1e-6:
            c.true(min(lo, hi) - 1e-9 <= r <= max(lo, hi) + 1e-9, "half-width between those of the neighbouring control points", beta=b)
            far = max(math.hypot(*(ref.q[j][:2] - q[:2, 2])) for j in (i, i + 1))
            c.le(far, local * (1 + 1e-6) + tol, "centre point between neighbouring control points", beta=b)
            m = f1.p
            c.le(sum(math.hypot(*(ref.q[j][:2] - m)) for j in (i, i + 1)), math.hypot(*(ref.q[i][:2] - ref.q[i + 1][:2])) + 1e-6 * scale, "linear centre point on the chord", beta=b)
    for b in (-c.u(5, 100), n - 1 + c.u(5, 100)):  # far off either end
        s = lane.along_lane_from_beta(b)
        c.close(s, ref.s(b), "travelled distance at a control-point progress far off the lane", atol=tol * 10, rtol=1e-8, beta=b)
        c.close(lane.beta_from_along_lane(s), b, "progress from distance from progress, far off the lane", atol=2e-6, beta=b, s=s)
        c.count("conversions")
        c.situation("conversion", k, "far before" if b < 0 else "far after")
    for s in [c.u(-3, L + 3), c.u(0, L), c.u(0, L)]:
        c.close(lane.along_lane_from_beta(lane.beta_from_along_lane(s)), s, "distance from progress from distance", atol=2e-7 * (1 + max(ref.lengths)), s=s)
        c.count("conversions")


def coordinates(c):
    k, pts, ths, rs = shape(c)
    if c.chance(0.35):  # built from its sides
        left, right = R.sides(pts, ths, rs)
        if c.chance(0.5):
            lane, how = DgLanelet.from_vertices(left, right, pts), "vertices"
        else:
            lane, how = DgLanelet.from_commonroad_lanelet(R.lanelet(7, pts, ths, rs)), "commonroad"
        c.count("built from vertices")
    else:
        lane, how = R.dg_lane(pts, ths, rs), "control points"
        if not np.all(np.abs(np.diff(ths)) < 3):
            how += " wrapped"
    ref = Curve(pts, ths, rs)
    c.note(pts=pts, ths=ths, rs=rs)
    compare(c, lane, ref, k)
    # on lanes made of arcs the travelled distance is the arc length
    if k != "wavy":
        bs = np.linspace(0, ref.n - 1, 40 * (ref.n - 1) + 1)
        ps = np.array([lane.center_point(b)[:2, 2] for b in bs[:1200]])
        length = np.hypot(*np.diff(ps, axis=0).T).sum()
        c.close(length, lane.along_lane_from_beta(bs[:1200][-1]), "distance travelled is the length of the way", atol=1e-6, rtol=2e-3)
    c.situation("lane", how, k)
    prof = lane.lane_profile(points_per_segment=c.int(2, 8))
    for p in prof:
        c.true(np.all(np.isfinite(p)), "profile points are finite")
    first_r, last_r, last_l, first_l = prof[0], prof[len(prof) // 2 - 1], prof[len(prof) // 2], prof[-1]
    L, Rr = R.sides(pts, ths, rs)
    c.close([first_r, last_r, last_l, first_l], [Rr[0], Rr[-1], L[-1], L[0]], "profile runs along the right side and back along the left", atol=1e-6)


def signature(lane, ppp):
    return (tuple(lane.get_lane_lengths()), lane.get_lane_length(), tuple(map(tuple, lane.lane_profile(ppp))),
            lane.along_lane_from_beta(1.5), lane.beta_from_along_lane(lane.get_lane_length() / 3))


def small(c):
    pts, ths = R.centerline(c, n=c.int(3, 6))
    rs = R.widths(c, len(pts))
    return pts, ths, rs


def relatives(c, data):
    """lanes that agree in part: ends, points, headings or widths of one with something else of their own"""
    pts, ths, rs = data
    out = []
    if len(pts) > 2:
        p = pts.copy()
        i = c.int(1, len(pts) - 2)
        p[i] += [c.u(0.2, 1) * c.sign(), c.u(0.2, 1) * c.sign()]
        out.append((p, ths, rs))
        out.append((np.delete(pts, i, 0), np.delete(ths, i), np.delete(rs, i)))
    out.append((pts, ths + np.array([c.u(-0.3, 0.3) for _ in ths]), rs))
    out.append((pts, ths, rs * c.u(0.5, 1.5)))
    out.append((pts + [c.u(-9, 9), c.u(-9, 9)], ths, rs))
    out.append((pts[::-1].copy(), ths[::-1] + math.pi, rs[::-1].copy()))
    q = pts.copy()
    q[-1] += [c.u(0.2, 2), c.u(0.2, 2)]
    out.append((q, ths, rs))
    return [(np.array(p), np.array(t), np.array(r)) for p, t, r in out]


def same_sig(c, a, b, msg, **kw):
    c.true(len(a[2]) == len(b[2]) and len(a[0]) == len(b[0]), msg + " (shape)", **kw)
    c.close(np.concatenate([a[0], [a[1], a[3], a[4]], np.ravel(a[2])]), np.concatenate([b[0], [b[1], b[3], b[4]], np.ravel(b[2])]), msg, atol=1e-9, **kw)


def ref_sig(data, ppp):
    ref = Curve(*data)
    n = ref.n - 1
    left, right = [], []
    for b in np.linspace(0, n, n * ppp):
        x, y, t = ref.at(b)
        r = ref.radius(b)
        left.append((x - r * math.sin(t), y + r * math.cos(t)))
        right.append((x + r * math.sin(t), y - r * math.cos(t)))
    return (tuple(ref.lengths), ref.L, tuple(right + left[::-1]), ref.s(1.5), ref.beta(ref.L / 3))


def caches(c):
    """many lanes, more than any cache holds, living and dying; results are always those of the lane at hand"""
    n = c.pick([20, 150, 300])
    data = []
    while len(data) < n:
        data.append(small(c))
        if c.chance(0.4):
            data += relatives(c, data[-1])
            c.count("relatives")
    n = len(data)
    ppp = [c.int(1, 4) + 1 for _ in data]
    refs = [ref_sig(d, p) for d, p in zip(data, ppp)]
    keep = {}
    for _ in range(2 * n):
        i = c.int(0, n - 1)
        mode = c.pick(["kept", "fresh", "fresh"])
        if mode == "kept":
            lane = keep.setdefault(i, R.dg_lane(*data[i]))
        else:
            lane = R.dg_lane(*data[i])
        if c.chance(0.3):  # another resolution of the same lane in between
            other = lane.lane_profile(points_per_segment=ppp[i] + 1)
            c.eq(len(other), 2 * (len(data[i][0]) - 1) * (ppp[i] + 1), "profile has the resolution asked for")
        same_sig(c, signature(lane, ppp[i]), refs[i], "coordinates are those of the lane asked", lane=i, mode=mode)
        if c.chance(0.2):
            same_sig(c, signature(lane, ppp[i]), refs[i], "asked again", lane=i)
        if c.chance(0.05):
            keep.pop(i, None)
            gc.collect()
        c.count("cached lanes")
    c.situation("caches", n)


def threads(c):
    n = c.pick([40, 200, 260])
    data = [small(c) for _ in range(n)]
    refs = [ref_sig(d, 2) for d in data]
    lanes = [R.dg_lane(*d) for d in data]
    errors, done = [], [0]
    k = 8
    start = threading.Barrier(k)
    picks = [[c.int(0, n - 1) for _ in range(120)] for _ in range(k)]
    old = sys.getswitchinterval()

    def work(w):
        try:
            start.wait()
            for i in picks[w]:
                lane = lanes[i] if (i + w) % 3 else R.dg_lane(*data[i])
                a, b = signature(lane, 2), refs[i]
                x = np.concatenate([a[0], [a[1], a[3], a[4]], np.ravel(a[2])])
                y = np.concatenate([b[0], [b[1], b[3], b[4]], np.ravel(b[2])])
                if x.shape != y.shape or not np.allclose(x, y, atol=1e-8):
                    errors.append(f"lane {i}: other coordinates than alone")
                done[0] += 1
        except Exception as e:  # noqa
            errors.append(repr(e))

    try:
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(w,)) for w in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    c.count("threaded queries", done[0])
    c.true(not errors, "lanes used from several threads answer as if used alone", errors=errors[:3])
    c.situation("threads", n)


FAMILIES = [("coordinates", coordinates, 350, 5000), ("caches", caches, 24, 250), ("threads", threads, 12, 150)]
