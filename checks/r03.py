"""R03: shapes on the canvas, judged by the pixels."""
import math

import matplotlib

matplotlib.use("Agg")
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure
from shapely.affinity import affine_transform
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon, box)

from vlib import world as W
from dg_commons.maps.shapely_viz import ShapelyViz

ID = "R03"
RULE = "distinct (geometry type, number of parts, holes or not, ring orientation, style) classes whose rendered pixels were compared with the shape"
REQUIRE = {"pixels": 120000, "inside": 15000, "in holes": 2000, "shapes": 250, "multi": 80, "empty": 20, "given axes": 100, "scaled": 35, "fine outlines": 15}
MIN_SITUATIONS = 40
N = 220  # pixels


def place(c, p):
    th, (x, y) = c.ang(), (c.u(-6, 6), c.u(-6, 6))
    co, si = math.cos(th), math.sin(th)
    return affine_transform(p, [co, -si, si, co, x, y])


def poly(c, holes=None):
    k = c.int(0, 2) if holes is None else holes
    p = W.random_polygon(c, *((2.8, 5.0) if k else (1.5, 4.0)))
    for _ in range(k):
        h = W.random_polygon(c, 0.7, 1.3)
        q = p.representative_point() if c.chance(0.5) else p.centroid
        h = affine_transform(h, [1, 0, 0, 1, q.x, q.y])
        d = p.difference(h)
        if isinstance(d, Polygon) and d.is_valid and len(d.interiors) >= len(p.interiors) and d.area > 0.3 * p.area:
            p = d
    if c.chance(0.5):  # either orientation of the rings
        p = Polygon(p.exterior.coords[::-1], [r.coords[:: c.pick((1, -1))] for r in p.interiors])
    return place(c, p)


def line(c):
    pts = [(c.u(-7, 7), c.u(-7, 7)) for _ in range(c.int(2, 5))]
    return LineString(pts)


def ring(c):
    return LinearRing(place(c, W.random_polygon(c, 1.5, 4)).exterior.coords)


def point(c):
    return Point(c.u(-7, 7), c.u(-7, 7))


def multipoly(c):
    out = []
    for _ in range(c.int(2, 4)):
        for _ in range(30):
            p = poly(c)
            if all(p.distance(q) > 0.2 for q in out):
                out.append(p)
                break
    return MultiPolygon(out)


def shape(c, depth=0):
    k = ["poly", "hole", "multipoly", "line", "ring", "multiline", "point", "multipoint", "collection"][(c.index + depth) % 9] if depth == 0 else c.pick(
        ["poly", "hole", "line", "ring", "point", "multipoly", "multiline"])
    if k == "poly":
        return poly(c, 0)
    if k == "hole":
        return poly(c, 2)
    if k == "multipoly":
        return multipoly(c)
    if k == "line":
        return line(c)
    if k == "ring":
        return ring(c)
    if k == "multiline":
        return MultiLineString([line(c) for _ in range(c.int(2, 3))])
    if k == "point":
        return point(c)
    if k == "multipoint":
        pts = [point(c) for _ in range(c.int(2, 4))]
        p = pts[0]
        if c.chance(0.4):  # above or beside one another
            pts.append(Point(p.x, c.sign() * c.u(1, 8)) if c.chance(0.5) else Point(c.sign() * c.u(1, 8), p.y))
        return MultiPoint(pts)
    parts = [shape(c, 1) for _ in range(c.int(2, 3))]
    if c.chance(0.4):  # a collection within the collection
        parts = [GeometryCollection(parts[1:]), parts[0]][:: c.sign()]
    return GeometryCollection(parts)


def leaves(s):
    return [x for g in s.geoms for x in leaves(g)] if hasattr(s, "geoms") else [s]


def canvas():
    fig = Figure(figsize=(N / 100, N / 100), dpi=100)
    FigureCanvasAgg(fig)
    ax = fig.add_axes([0, 0, 1, 1])
    return fig, ax


def render(fig, ax, k=1.0, at=(0.0, 0.0)):
    ax.set_xlim(at[0] - 10 * k, at[0] + 10 * k)
    ax.set_ylim(at[1] - 10 * k, at[1] + 10 * k)
    ax.axis("off")
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(float) / 255


def judge(c, img, s, what, base=(1.0, 1.0, 1.0), color=(1.0, 0.0, 0.0), lw=1.5, radius=0.3, extra=None):
    """Pixels well inside are painted, pixels well outside are not; a margin along the edges is left out"""
    px = 20 / N
    edge = 2.5 * px + lw / 72 * 100 / 2 * px
    filled, thin = [], []
    for g in leaves(s):
        if isinstance(g, Polygon):
            filled.append(g)
        elif isinstance(g, Point):
            filled.append(g.buffer(radius, quad_segs=32))
        else:
            thin.append(g)
    n_in = 0
    for _ in range(700):
        if c.chance(0.6) and filled:
            f = c.pick(filled)
            f = Polygon(c.pick(f.interiors)) if f.interiors and c.chance(0.6) else f
            a, b, d, e = f.bounds
            x, y = c.u(a, d), c.u(b, e)
        else:
            x, y = c.u(-9.5, 9.5), c.u(-9.5, 9.5)
        i, j = int((10 - y) / 20 * N), int((x + 10) / 20 * N)
        if not (0 <= i < N and 0 <= j < N):
            continue
        q = Point(-10 + (j + 0.5) * px, 10 - (i + 0.5) * px)
        v = img[i, j]
        near = any(g.boundary.distance(q) < edge for g in filled) or any(g.distance(q) < edge for g in thin)
        if near:
            continue
        inside = any(g.contains(q) for g in filled)
        want = color if inside else base
        c.true(np.abs(v - np.array(want)).max() < 0.02, f"{what}: pixel", at=(q.x, q.y), inside=inside, got=v.tolist(), expected=want, shape=s.wkt[:500])
        c.count("pixels")
        if inside:
            n_in += 1
            c.count("inside")
        elif any(Polygon(r).contains(q) for g in filled for r in g.interiors):
            c.count("in holes")
    for g in thin:  # lines leave a trace all along
        for f in np.linspace(0.03, 0.97, 12):
            q = g.interpolate(f, normalized=True)
            i, j = int((10 - q.y) / 20 * N), int((q.x + 10) / 20 * N)
            if not (2 <= i < N - 2 and 2 <= j < N - 2):
                continue
            w = img[i - 1: i + 2, j - 1: j + 2].reshape(-1, 3)
            d = np.abs(w - np.array(color)).max(axis=1).min()
            c.true(d < 0.6, f"{what}: a line leaves a trace", at=(q.x, q.y), got=w.tolist(), shape=s.wkt[:500])
            c.count("pixels")
    return n_in


def kind(s):
    return s.geom_type


def draws(c):
    s = shape(c)
    fig, ax = canvas()
    style = dict(color="red")
    lw = 1.5
    if c.chance(0.6):
        style["zorder"] = c.pick([3, 32, 35])
    pointy = any(isinstance(g, Point) for g in leaves(s))
    radius = 5.0
    if pointy:
        if any(not isinstance(g, Point) for g in leaves(s)):
            radius = 5.0  # no style fits both, the default radius of a circle is used
        else:
            radius = style["radius"] = c.u(0.3, 1.0)
    mode = "given"
    if c.chance(0.8):
        viz = ShapelyViz(ax)
        c.count("given axes")
    else:
        mode = "current"
        fig = plt.figure(figsize=(N / 100, N / 100), dpi=100)
        ax = fig.add_axes([0, 0, 1, 1])
        viz = ShapelyViz()
    before = s.wkb
    viz.add_shape(s, **style)
    c.eq(s.wkb, before, "the shape is not modified")
    img = render(fig, ax)
    judge(c, img, s, kind(s), radius=radius, lw=lw)
    plt.close("all")
    c.count("shapes")
    if hasattr(s, "geoms"):
        c.count("multi")
    holes = sum(len(g.interiors) for g in leaves(s) if isinstance(g, Polygon))
    c.situation(kind(s), len(leaves(s)), min(holes, 2), "z" in "".join(style), mode)


def scales(c):
    """tiny and huge shapes, looked at from as near or as far; outlines of very many vertices"""
    how = c.pick(["gear", "fine", "any", "any"])
    if how == "gear":
        n, r = c.int(18, 60), c.u(4, 5)
        s = place(c, Polygon([((r + (2.5 if (i // 2) % 2 else 0)) * math.cos(i * math.pi / n / 2 * 2), (r + (2.5 if (i // 2) % 2 else 0)) * math.sin(i * math.pi / n / 2 * 2)) for i in range(2 * n)]))
    elif how == "fine":
        n, w, f = c.int(60, 300), c.u(0, 1.5), c.int(2, 5)
        s = place(c, Polygon([((4 + w * math.cos(f * t) + c.u(0, 0.3)) * math.cos(t), (4 + w * math.sin(f * t) + c.u(0, 0.3)) * math.sin(t)) for t in np.arange(n) * 2 * math.pi / n]))
    else:
        s = shape(c)
        if any(isinstance(g, Point) for g in leaves(s)):
            return
    k = 10 ** c.u(-3, 3)
    at = (c.u(-100, 100) * k, c.u(-100, 100) * k)
    fig, ax = canvas()
    ShapelyViz(ax).add_shape(affine_transform(s, [k, 0, 0, k, *at]), color="red")
    judge(c, render(fig, ax, k, at), s, f"{kind(s)} ({how}, scale {k:.1e})")
    c.count("scaled")
    if how != "any":
        c.count("fine outlines")
    c.situation("scale", how, kind(s), round(math.log10(k)))


def layers(c):
    """A shape with holes on top of another one: what lies behind is seen through the holes only"""
    fig, ax = canvas()
    viz = ShapelyViz(ax)
    back = box(-9, -9, 9, 9)
    viz.add_shape(back, color="blue", zorder=10)
    s = poly(c, 2) if c.chance(0.6) else multipoly(c)
    s = s.intersection(box(-8.5, -8.5, 8.5, 8.5))
    if s.is_empty or not all(isinstance(g, Polygon) for g in leaves(s)):
        return
    viz.add_shape(s, color="red", zorder=20)
    img = render(fig, ax)
    px = 20 / N
    for _ in range(500):
        x, y = c.u(-8.5, 8.5), c.u(-8.5, 8.5)
        hs = [r for g in leaves(s) for r in g.interiors]
        if hs and c.chance(0.5):
            a, b, d, e = c.pick(hs).bounds
            x, y = c.u(a, d), c.u(b, e)
        i, j = int((10 - y) / 20 * N), int((x + 10) / 20 * N)
        q = Point(-10 + (j + 0.5) * px, 10 - (i + 0.5) * px)
        if any(g.boundary.distance(q) < 0.35 for g in leaves(s)):
            continue
        inside = any(g.contains(q) for g in leaves(s))
        want = (1, 0, 0) if inside else (0, 0, 1)
        c.true(np.abs(img[i, j] - np.array(want)).max() < 0.02, "what lies behind is seen around the shape and through its holes only",
               at=(q.x, q.y), inside=inside, got=img[i, j].tolist(), shape=s.wkt[:500])
        c.count("pixels")
        if not inside and any(Polygon(r).contains(q) for g in leaves(s) for r in g.interiors):
            c.count("in holes")
    c.situation("layers", kind(s), len(leaves(s)))


def corner(c):
    """Empty shapes draw nothing; unknown things are refused"""
    fig, ax = canvas()
    viz = ShapelyViz(ax)
    n0 = len(ax.get_children())
    for s in (Polygon(), LineString(), Point(), MultiPolygon(), GeometryCollection(), MultiPoint(), MultiLineString()):
        viz.add_shape(s, color="red")
        c.eq(len(ax.get_children()), n0, "an empty shape draws nothing", type=s.geom_type)
        c.count("empty")
    p = poly(c, 1)
    viz.add_shape(GeometryCollection([Polygon(), p, LineString()]), color="red")
    judge(c, render(fig, ax), p, "collection with empty members")
    c.situation("corner")


FAMILIES = [("scales", scales, 60, 1200), ("draws", draws, 280, 6000), ("layers", layers, 40, 600), ("corner", corner, 8, 40)]
