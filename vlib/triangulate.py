"""Stand-in for the polygon triangulation that the drivability checker installed here was built without.

`commonroad_dc.pycrcc.Polygon(outline, holes)` raises in this sandbox ("compiled without General Polygon Clipper support"); its
constructor taking a ready triangle mesh works. Importing this module before dg_commons provides the former by means of the latter."""
from commonroad_dc import pycrcc
from shapely import constrained_delaunay_triangles
from shapely.geometry import Polygon


def _mesh(outline):
    return [pycrcc.Triangle(*[float(v) for p in list(t.exterior.coords)[:3] for v in p]) for t in constrained_delaunay_triangles(Polygon(outline)).geoms if t.area > 0]


def install():
    real = pycrcc.Polygon
    try:
        real([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]], [])
        return False
    except RuntimeError:
        pass

    def make(outline, holes=(), *mesh):
        outline = [[float(a), float(b)] for a, b in outline]
        return real(outline, [list(h) for h in holes], list(mesh[0]) if mesh else _mesh(outline))

    pycrcc.Polygon = make
    return True


INSTALLED = install()
