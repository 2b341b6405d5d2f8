"""C25: buffered targets are exactly the surroundings within reach.

Reference model: the reach is one time step of ground motion plus half of the
swath (plane vector geometry); a place belongs to the buffered region if one of
its images (whole turns, over a pole) lies within the reach of the target in
the projected coordinates.
"""
import math

import numpy as np
import shapely
from pyproj import Transformer
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon, box

from tatc import utils as U
from mc.core import require
from mc.props.c19 import MU, R, SID, lam_of_eta

GEOM = {
    "point": Point(10, 20), "am point": Point(179.5, -30), "on am": Point(180, 0), "on am-": Point(-180, 35), "polar point": Point(30, 85), "at pole": Point(-70, 90), "south": Point(-100, -88),
    "box": box(-20, -10, 30, 40), "am parts": MultiPolygon([box(170, -20, 180, 10), box(-180, -20, -170, 10)]), "line": LineString([(0, 0), (14, 11), (9, 22)]),
    "points": MultiPoint([(0, 0), (100, 50), (-179, 0)]), "polar box": box(20, 70, 60, 89),
    "hole": Polygon([(-60, -60), (60, -60), (60, 60), (-60, 60)], [[(-40, -40), (40, -40), (40, 40), (-40, 40)]]),
    "strip": box(-180, -60, -178, 60), "tri": Polygon([(100, -10), (150, 30), (120, -50)]), "south box": box(-170, -89.5, -120, -75),
    "meridian": LineString([(-90, -80), (-90, 80)]), "far east": box(150, 40, 179.9, 60), "two": MultiPolygon([box(-5, -5, 5, 5), box(100, 60, 120, 80)]),
    "west tri": Polygon([(-179, 10), (-150, 60), (-178, 70)]), "point z": Point(10, 20, 300.0),
}
SETS = [(500000, 97.0, 30.0, 10.0, 1.0), (500000.0, 51, 100.0, 60, 1.0), (800000, 60.0, 120.0, 120.0, 1.5), (35786000, 0.0, 10.0, 600.0, 1.0), (500000, 98.0, 60.0, 600.0, 1.0),
        (408000, 51.6, 0.5, 1.0, 1.0), (700000, 150.0, 45.0, 30.0, 0.5), (1200000, 90.0, 180.0, 0.0, 1.0), (567000, 0.0, 20.0, 300.0, 2.0), (408000, 180.0, 360.0, 20.0, 1.0)]
MORE = [(300000 * 1.3 ** k, (37.0 * k) % 180, (5 + 29 * k) % 200, 13.0 * k, 0.5 + 0.25 * (k % 5)) for k in range(1, 17)]
CRS = ["EPSG:4087", "EPSG:32662", "EPSG:3395"]
BOUNDS = {
    "quick": "21 geometries (points, lines, boxes, holes, parts at the antimeridian and the poles) x 10 orbit, field, step and scaling settings x a lattice of 6800 places, plus places near the outline; two other projections for targets and reaches that stay inside them",
    "thorough": "26 settings and a lattice of 40000 places",
}
ASSUMPTIONS = ["circles are approximated with 64 edges: places within 0.7 % of the reach (or 2 m; 1.5 km along slanted edges) from the outline are not decided",
               "the reach is measured in the given projection, as documented: distances along a parallel shrink with latitude"]
CHUNK = 2


def cases(tier):
    for g in GEOM:
        for k in range(len(SETS) + (0 if tier == "quick" else len(MORE))):
            yield {"g": g, "k": k, "n": 1 if tier == "quick" else 2.5}
        yield {"g": g, "k": 0, "crs": 1, "n": 1}
        yield {"g": g, "k": 0, "crs": 2, "n": 1}


_P = {}


def project(crs):
    if crs not in _P:
        t = Transformer.from_crs("EPSG:4326", crs, always_xy=True)
        _P[crs] = lambda x, y: np.stack(t.transform(x, y), axis=-1)
    return _P[crs]


def images(crs, lon, lat):
    """Projected coordinates of every image of the places."""
    f = project(crs)
    turn = f(np.array([179.0]), np.array([0.0]))[0, 0] / 179 * 360
    base = f(lon, lat)
    out = [base + [k * turn, 0] for k in (-1, 0, 1)]
    if crs != CRS[2]:
        top = f(np.array([0.0]), np.array([90.0]))[0, 1]
        for s in (1, -1):
            for k in (-1.5, -0.5, 0.5, 1.5):
                out.append(np.stack([base[:, 0] + k * turn, s * 2 * top - base[:, 1]], axis=-1))
    return out


def check(c, ctx):
    g = GEOM[c["g"]]
    h, inc, field, step, scale = (SETS + MORE)[c["k"]]
    crs = CRS[c.get("crs", 0)]
    lam = lam_of_eta(h, 0.0, math.radians(field / 2)) if field < 180 else math.acos(R / (R + h))
    speed = R * (math.sqrt(MU / (R + h) ** 3) - 2 * math.pi / SID * math.cos(math.radians(inc)))
    reach = (speed * step + R * lam) * scale
    what = {"target": c["g"], "altitude": h, "inclination": inc, "field_of_regard": field, "time_step": step, "scaling": scale, "crs": crs}
    if c.get("crs") == 2 and (max(abs(g.bounds[1]), abs(g.bounds[3])) > 75 or "tri" in c["g"] or c["g"] == "line"):
        return
    before = g.wkb
    kw = {"distance_crs": crs} if "crs" in c else {}
    if scale != 1.0:
        kw["distance_scaling"] = scale
    r = U.buffer_target(g, h, inc, field, step, **kw)
    ctx.step()
    require(g.wkb == before, "the target is modified", **what)
    require(r.geom_type in ("Polygon", "MultiPolygon") and r.is_valid, "not a valid region: %s" % r.geom_type, sig="valid", **what)
    if reach <= 0:
        require(r.is_empty or r.within(g.buffer(1e-6)), "a region without reach", sig="reach", **what)
        return
    x0, y0, x1, y1 = r.bounds
    require(x0 >= -180 and x1 <= 180 and y0 >= -90 and y1 <= 90, "coordinates out of range %r" % (r.bounds,), sig="range", **what)
    n = c["n"]
    lon, lat = np.meshgrid(np.arange(-179.61, 180, 3.11 / n), np.arange(-89.83, 90, 3.07 / n))
    lon, lat = lon.ravel(), lat.ravel()
    # places around the target at several fractions of the reach
    near, deg = [], math.degrees(reach / 6378137.0)
    for x, y in shapely.get_coordinates(g)[:12]:
        for q in (0.0, 0.4, 0.9, 0.985, 1.015, 1.1, 1.6):
            for a in np.arange(0, 360, 24.7):
                near.append((x + q * deg * math.cos(math.radians(a)), y + q * deg * math.sin(math.radians(a))))
    near = np.array(near)
    px, py = near[:, 0], near[:, 1]
    flip = np.abs(py) > 90
    py, px = np.where(flip, np.sign(py) * 180 - py, py), np.where(flip, px + 180, px)
    px = (px + 180) % 360 - 180
    keep = (np.abs(py) < 89.95) & (np.abs(px) < 179.99)
    lon, lat = np.concatenate([lon, px[keep]]), np.concatenate([lat, py[keep]])
    if c.get("crs") == 2:
        keep = np.abs(lat) < 84
        lon, lat = lon[keep], lat[keep]
    f = project(crs)
    G = shapely.transform(shapely.force_2d(g), lambda a: f(a[:, 0], a[:, 1]))
    dist = np.min([shapely.distance(G, shapely.points(p)) for p in images(crs, lon, lat)], axis=0)
    got = shapely.intersects_xy(r, lon, lat)
    slack = 1500.0 if "tri" in c["g"] or c["g"] == "line" else 2.0  # slanted edges are straight in one system only
    must, mustnot = dist < reach * 0.993 - slack, dist > reach * 1.002 + slack
    ctx.skip(int((~(must | mustnot)).sum()))
    bad = np.nonzero(must & ~got)[0]
    require(len(bad) == 0, "places within reach of the target are missing: %r" % [(float(lon[k]), float(lat[k]), float(dist[k])) for k in bad[:3]], sig="missing", reach=reach, **what)
    bad = np.nonzero(mustnot & got)[0]
    require(len(bad) == 0, "places out of reach of the target are included: %r" % [(float(lon[k]), float(lat[k]), float(dist[k])) for k in bad[:3]], sig="extra", reach=reach, **what)
    ctx.count("places", len(lon))
    for k in range(0, len(lon), 97):
        ctx.state((c["g"], c["k"], crs, k))
    ctx.trace((c["g"], c["k"], crs, int(got.sum())))
