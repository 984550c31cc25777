"""T03: generated polygons."""
import math
import random

import numpy as np
from shapely.geometry import Point, Polygon

from vlib.core import wrap
from dg_commons.maps.shapes_generator import create_random_starshaped_polygon, create_star_polygon

ID = "T03"
RULE = "distinct (generator, number of vertices, irregularity, spikiness, scale) classes of generated polygons measured against what was asked for"
REQUIRE = {"stars": 200, "random": 1500, "regular": 150, "statistics": 20, "same seed": 300}
MIN_SITUATIONS = 40
PX = math.sqrt(2) + 1e-9  # vertices are given in whole pixels


def stars(c):
    x, y = c.pick([(0.0, 0.0), (c.u(-50, 50), c.u(-50, 50)), (3, -7)])
    p, t = c.u(0.5, 10), c.u(0.1, 6)
    if c.chance(0.2):
        t = p / math.sqrt(2)  # regular octagon
    v = create_star_polygon(x, y, p, t)
    c.eq(len(v), 8, "eight vertices")
    tol = 1e-12 * (1 + abs(x) + abs(y)) * 10
    want = {(i * p, 0.0) for i in (-1, 1)} | {(0.0, i * p) for i in (-1, 1)} | {(i * t, j * t) for i in (-1, 1) for j in (-1, 1)}
    got = [(a - x, b - y) for a, b in v]
    for w in want:
        c.true(any(math.hypot(g[0] - w[0], g[1] - w[1]) <= tol for g in got), "vertex of the star", missing=w, got=got)
    ang = [math.atan2(b, a) for a, b in got]
    steps = [wrap(b - a) for a, b in zip(ang, ang[1:] + ang[:1])]
    c.true(all(abs(abs(s) - math.pi / 4) < 1e-9 for s in steps) and abs(sum(steps)) > 6, "the vertices go once around the centre", steps=steps)
    s = Polygon(v)
    c.true(s.is_valid, "the outline does not cross itself")
    c.close(s.area, 4 * p * t, "area of the star", rtol=1e-9, atol=1e-9)
    c.close(s.centroid.coords[0], (x, y), "the star is centred", atol=1e-9 * (1 + abs(x) + abs(y)))
    c.count("stars")
    c.situation("star", "spikes on the axes" if p > t * math.sqrt(2) else "spikes on the diagonals", (x, y) == (0, 0))


def measure(c, x, y, R, irr, spi, n, v):
    c.eq(len(v), n, "number of vertices")
    c.true(all(isinstance(a, int) and isinstance(b, int) for a, b in v), "whole pixels")
    d = np.array([(a - x, b - y) for a, b in v])
    r = np.hypot(d[:, 0], d[:, 1])
    c.le(r.max(), 2 * R + PX, "no vertex beyond twice the average radius", R=R, r=r)
    return d, r


def randoms(c):
    for _ in range(8):
        R = c.pick([1e6, 1e7, c.u(1e4, 1e6), c.u(20, 300)])
        n = c.int(3, 20)
        irr, spi = c.pick([0, 0.0, 1, c.u(0, 1), c.u(0, 0.5), 1.7, -0.5]), c.pick([0, 0, 1, c.u(0, 0.3), c.u(0, 1), 2.5, -1])
        x, y = c.pick([(0, 0), (c.int(-1000, 1000), c.int(-1000, 1000)), (c.u(-300, 300), c.u(-300, 300))])
        seed = c.int(0, 10 ** 9)
        random.seed(seed)
        v = create_random_starshaped_polygon(x, y, R, irr, spi, n)
        d, r = measure(c, x, y, R, irr, spi, n, v)
        i, s = min(max(irr, 0), 1), min(max(spi, 0), 1)
        # the spread parameters are limited to [0, 1]
        random.seed(seed)
        c.eq(create_random_starshaped_polygon(x, y, R, i, s, n), v, "spread parameters beyond their range count as its ends, and equal seeds give equal polygons")
        c.count("same seed")
        if s == 0:
            c.le(np.abs(r - R).max(), PX, "without spikiness all vertices are on the circle", r=r, R=R)
        far = r > 100
        if R >= 1e4 and far.all():
            ang = np.arctan2(d[:, 1], d[:, 0])
            eps = float((3 * PX / r).max())
            steps = np.diff(np.append(ang, ang[0])) % (2 * math.pi)
            steps = np.where(steps > 2 * math.pi - eps, steps - 2 * math.pi, steps)
            c.close(steps.sum(), 2 * math.pi, "the vertices go once around the centre, counter-clockwise", atol=1e-6)
            c.le(-steps.min(), eps, "counter-clockwise order")
            m = 2 * math.pi / n
            lo, hi = m * (1 - i), m * (1 + i)
            # every spacing is drawn from [lo, hi], then all are scaled to a full turn
            c.le(steps.max() * lo, steps.min() * hi + 3 * eps * hi + 1e-9, "the spacing varies as much as asked for at most", steps=steps, irregularity=i)
            if i == 0:
                c.close(steps, np.full(n, m), "without irregularity the vertices are evenly spaced", atol=2 * eps)
                c.count("regular")
        c.count("random")
        c.situation("random", n, i in (0, 1) and i, s in (0, 1) and s)


def statistics(c):
    """Over many vertices: the radii scatter around the average as asked, directions have no preference"""
    R, n = 1e6, 4000
    spi = c.pick([0.05, 0.1, 0.2])
    irr = c.pick([0.3, 0.6, 1.0])
    x, y = c.int(-100, 100), c.int(-100, 100)
    random.seed(c.int(0, 10 ** 9))
    v = create_random_starshaped_polygon(x, y, R, irr, spi, n)
    d, r = measure(c, x, y, R, irr, spi, n, v)
    c.close(r.mean() / R, 1, "mean radius", atol=6 * spi / math.sqrt(n))
    c.close(r.std() / R, spi, "spread of the radii", rtol=0.08)
    ang = np.arctan2(d[:, 1], d[:, 0])
    st = wrap(np.diff(ang)) * n / (2 * math.pi)
    c.close(st.std(), irr / math.sqrt(3), "spread of the spacing", rtol=0.08)
    c.count("statistics")
    # where the outline begins
    first = []
    for _ in range(300):
        a, b = create_random_starshaped_polygon(0, 0, R, 0, 0, 5)[0]
        first.append(math.atan2(b, a))
    q = np.histogram(first, bins=6, range=(-math.pi, math.pi))[0]
    c.true((q > 15).all(), "the first vertex lies in any direction", histogram=q)
    c.situation("statistics", irr, spi)


FAMILIES = [("stars", stars, 250, 3000), ("randoms", randoms, 250, 4000), ("statistics", statistics, 25, 200)]
