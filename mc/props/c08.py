"""C08: splitting and normalizing regions preserves the area on the globe.

Reference model: the ring is unwrapped to continuous longitudes; the plane
region is cut at every seam (longitudes 180+360k, latitudes +-90) and each
piece is mapped back by the corresponding isometry (shift by 360 degrees, or
reflection at the pole with a shift by 180 degrees).  A ring that runs once
around the globe bounds the region between it and the pole.
"""
import itertools

import geopandas as gpd
import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.affinity import affine_transform
from shapely.ops import unary_union

from tatc.utils import normalize_geometry, split_polygon
from mc.core import Violation, require
from mc.common import frame_fingerprint

BOUNDS = {
    "quick": "rectangles at 40 longitude offsets (some a fraction of a degree past the antimeridian) x 6 widths x 16 latitude bands (up to 165 degrees, past either pole) and triangles/diamonds/L-shapes x 2 longitude conventions (within +-180, continuous past 180) x 2 orientations x all starting vertices (rotated through the cases), with and without hole; rings around each pole with 4..12 vertices x 12 offsets x 8 profiles (4 latitude profiles, a vertex across the equator, turning back in longitude, holes around the pole and across either meridian); normalization in 6 forms",
    "thorough": "every starting vertex and convention for every polygon, 73 longitude offsets",
}
CHUNK = 8
BANDS = [(-10, 10), (35.5, 60), (-72, -20.25), (60, 80), (70, 90), (-90, -66), (75, 96), (84, 118), (-97, -70), (-120, -81.5), (90, 110), (-45, 89.5), (60, 150), (-140, -70.5), (125, 160), (-165, -130)]
WIDTHS = [15, 40, 88, 130, 200, 330]


def densify(pts, step):
    """Insert vertices so that no edge spans `step` or more degrees of longitude."""
    out = []
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        n = max(1, int(np.ceil(abs(x1 - x0) / step)))
        out += [(x0 + (x1 - x0) * k / n, y0 + (y1 - y0) * k / n) for k in range(n)]
    return out


def shapes(k, x, w, b):
    lo, hi = b
    if k == "rect":
        return [(x, lo), (x + w, lo), (x + w, hi), (x, hi)], [(x + w / 3, lo + (hi - lo) / 3), (x + 2 * w / 3, lo + (hi - lo) / 3), (x + 2 * w / 3, lo + 2 * (hi - lo) / 3), (x + w / 3, lo + 2 * (hi - lo) / 3)]
    if k == "tri":
        return [(x, lo), (x + w, (lo + hi) / 2), (x + w / 4, hi)], [(x + 0.3 * w, lo + 0.45 * (hi - lo)), (x + 0.5 * w, lo + 0.5 * (hi - lo)), (x + 0.35 * w, lo + 0.6 * (hi - lo))]
    if k == "dia":
        return [(x, (lo + hi) / 2), (x + w / 2, lo), (x + w, (lo + hi) / 2), (x + w / 2, hi)], [(x + 0.4 * w, (lo + hi) / 2), (x + w / 2, lo + 0.4 * (hi - lo)), (x + 0.6 * w, (lo + hi) / 2), (x + w / 2, lo + 0.6 * (hi - lo))]
    return [(x, lo), (x + w, lo), (x + w, hi), (x + 0.7 * w, hi), (x + 0.7 * w, (lo + hi) / 2), (x, (lo + hi) / 2)], None


def wrap(v, conv):
    if conv == "raw":
        return v
    if conv == "360":
        return v % 360.0
    r = (v + 180.0) % 360.0 - 180.0
    return 180.0 if r == -180.0 and v > 0 else r


def cases(tier):
    q = tier == "quick"
    offs = [-180 + 10 * i for i in range(36)] + [173.75, -180.5, -180.02, 179.97] if q else [-180 + 5 * i for i in range(72)] + [173.75, -180.5, -180.02, 179.97]
    k = 0
    for b, w, x in itertools.product(range(len(BANDS)), WIDTHS, offs):
        for s in ("rect", "tri", "dia", "ell"):
            k += 1
            if q and s != "rect" and k % 3:
                continue
            yield {"k": "band", "s": s, "x": x, "w": w, "b": b, "r": k % 7, "all": not q}
    for n in (4, 5, 6, 8, 12):
        for o in range(0, 360, 30 if q else 10):
            for prof in range(8):
                for ns in (1, -1):
                    yield {"k": "pole", "n": n, "o": o + (7 if o % 60 else 0), "prof": prof, "ns": ns}
    for f in range(6):
        yield {"k": "norm", "f": f}


def unwrap(ring):
    out = [tuple(ring[0][:2])]
    for x, y in [c[:2] for c in ring[1:]]:
        px = out[-1][0]
        while x - px > 180:
            x -= 360
        while x - px < -180:
            x += 360
        out.append((x, y))
    return out


def fold(poly):
    """Map a plane region to the standard rectangle, cutting at every seam."""
    parts = []
    x0, y0, x1, y1 = poly.bounds
    for j in (-1, 0, 1):
        yb = (-90 + 180 * j, 90 + 180 * j)
        if y1 <= yb[0] or y0 >= yb[1]:
            continue
        sh = 0 if j == 0 else 180
        for k in range(-5, 6):
            a = -180 + 360 * k - sh
            if x1 <= a or x0 >= a + 360:
                continue
            g = poly.intersection(box(a, yb[0], a + 360, yb[1]))
            if g.is_empty:
                continue
            if j == 0:
                parts.append(affine_transform(g, [1, 0, 0, 1, -360 * k, 0]))
            else:
                parts.append(affine_transform(g, [1, 0, 0, -1, sh - 360 * k, 180 * j]))
    return unary_union(parts)


def expected(ext, hole):
    u = unwrap(list(ext) + [ext[0]])
    turn = round((u[-1][0] - u[0][0]) / 360.0)
    if turn == 0:
        p = Polygon(u)
        if hole:
            h = unwrap(list(hole) + [hole[0]])
            for k in (-2, -1, 0, 1, 2):
                hp = Polygon([(x + 360 * k, y) for x, y in h])
                if p.contains(hp):
                    p = p.difference(hp)
                    break
            else:
                raise AssertionError("hole outside")
        return fold(p)
    ns = 90 if np.mean([y for _, y in ext]) > 0 else -90
    # close the plane region over the vertex nearest to the pole: nothing lies between
    k = max(range(len(ext)), key=lambda i: ext[i][1] * ns)
    u = unwrap(list(ext[k:]) + list(ext[:k]) + [ext[k]])
    p = Polygon(u + [(u[-1][0], ns), (u[0][0], ns)])
    assert p.is_valid
    g = fold(p)
    if hole:
        g = g.difference(expected(hole, None))
    return g


def judge(ext, hole, ctx, what, key):
    src = Polygon(ext, [hole] if hole else None)
    want = expected(ext, hole)
    got = split_polygon(src)
    ctx.step()
    compare(got, want, src, what)
    ctx.trace((key, got.geom_type, len(getattr(got, "geoms", [0]))))
    return got


def compare(got, want, src, what):
    w = dict(what, polygon=src.wkt[:300])
    require(got.geom_type in ("Polygon", "MultiPolygon"), "result is a %s" % got.geom_type, **w)
    require(got.is_valid, "the result is not valid", sig="valid", result=got.wkt[:300], **w)
    x0, y0, x1, y1 = got.bounds
    require(x0 >= -180 - 1e-9 and x1 <= 180 + 1e-9 and y0 >= -90 - 1e-9 and y1 <= 90 + 1e-9, "coordinates out of range", sig="range", bounds=got.bounds, **w)
    d = got.symmetric_difference(want).area
    require(d < 1e-6, "the result covers another region: %.6g square degrees differ (area %.6g, expected %.6g)" % (d, got.area, want.area), sig="region", result=got.wkt[:300], **w)


def check(c, ctx):
    if c["k"] == "band":
        b = BANDS[c["b"]]
        ext, hole = shapes(c["s"], c["x"], c["w"], b)
        ext = densify(ext, 60.0)
        n = len(ext)
        opts = list(itertools.product(("180", "raw"), (False, True), range(n), (False, True) if hole else (False,)))
        if not c["all"]:
            # a fixed rotation through the full option product, covering every option for some neighbouring case
            opts = [opts[i] for i in range(len(opts)) if i % 3 == c["r"] % 3]
        for conv, rev, st, hol in opts:
            e = [(wrap(x, conv), y) for x, y in ext]
            e = e[st:] + e[:st]
            hh = [(wrap(x, conv), y) for x, y in hole] if hol else None
            if rev:
                e = e[::-1]
            what = {"conv": conv, "reversed": rev, "start": st}
            ctx.state((c["s"], c["x"], c["w"], c["b"], conv, rev, st, hol))
            src = Polygon(e, [hh] if hh else None)
            if not crossing(e) and not crossing(hh) and not src.is_valid:
                ctx.skip()
                continue
            got = judge(e, hh, ctx, what, (c["s"], c["b"]))
            if not crossing(e) and all(-180 <= x <= 180 and -90 <= y <= 90 for x, y in e):
                require(got.equals(src) and got.geom_type == "Polygon", "a polygon that needs no splitting was changed", sig="changed", polygon=src.wkt[:200], result=got.wkt[:200])
    elif c["k"] == "pole":
        n, ns = c["n"], c["ns"]
        prof = c["prof"]
        base = [70.0, 55.5, 80.0, 20.0, 60.0, 62.0, 50.0, 55.0][prof]
        lat = [ns * (base + (7.0 * ((i * i) % 5) / 5 if prof != 2 else 0.0)) for i in range(n)]
        ring = [(c["o"] + 360.0 * i / n, lat[i]) for i in range(n)]
        if prof == 4:
            # one vertex dips into the other hemisphere
            ring[1] = (ring[1][0], -ns * 15.0)
        elif prof in (5, 6):
            # the ring turns back in longitude before going on (6: by more than it advanced)
            x, back = ring[1][0], (20.0 if prof == 5 else 360.0 / n + 15.0)
            ring[1:2] = [(x, ns * base), (x - back, ns * (base + 12)), (x + 5, ns * (base + 17))]
        holes = [None, [(15, ns * 86.0), (40, ns * 86.0), (40, ns * 88.0), (15, ns * 88.0)], [(-130, ns * 84.0), (-100, ns * 84.5), (-110, ns * 87.0)]]
        if prof == 7:
            holes = [[(-135, ns * 80), (-45, ns * 82), (45, ns * 80), (135, ns * 79)], [(170, ns * 80), (-170, ns * 80), (-170, ns * 85), (170, ns * 85)],
                     [(-10, ns * 80), (10, ns * 80), (10, ns * 85), (-10, ns * 85)]]
        n = len(ring)
        for conv, rev, st, h in itertools.product(("180", "raw") if prof in (0, 4, 6) else ("180",), (False, True), range(n), holes if prof != 2 else [None]):
            e = [(wrap(x, conv), y) for x, y in ring]
            e = e[st:] + e[:st]
            hh = h
            if rev:
                e = e[::-1]
            ctx.state(("p", n, c["o"], c["prof"], ns, conv, rev, st, h is not None))
            judge(e, hh, ctx, {"conv": conv, "reversed": rev, "start": st}, ("pole", n, ns))
    else:
        norm(c["f"], ctx)


def crossing(r):
    if not r:
        return False
    return any(abs(a[0] - b[0]) > 180 for a, b in zip(r, list(r[1:]) + [r[0]]))


def norm(f, ctx):
    polys = [box(-10, -10, 10, 10), Polygon([(170, -10), (-170, -10), (-170, 20), (170, 20)]), Polygon([(o, 70) for o in (-135, -45, 45, 135)]),
             Polygon([(0, 0), (40, 0), (40, 30), (0, 30)], [[(10, 10), (20, 10), (20, 20), (10, 20)]]), box(20, 80, 40, 97), box(-150, -97, -120, -80)]
    want = [expected(list(p.exterior.coords)[:-1], list(p.interiors[0].coords)[:-1] if p.interiors else None) for p in polys]
    sel = polys[f]
    for kind in ("polygon", "multi", "series", "frame", "series2", "frame2", "framecols", "frameindex"):
        others = [p for p in polys if p is not sel]
        mine = [sel]
        if kind == "polygon":
            g = sel
        elif kind == "multi":
            g = MultiPolygon([sel, box(60, -40, 70, -30)])
        elif kind == "series":
            g = gpd.GeoSeries([sel], crs="EPSG:4326")
        elif kind == "frame":
            g = gpd.GeoDataFrame(geometry=[sel], crs="EPSG:4326")
        elif kind == "series2":
            mine = [others[0], sel, others[-1]]
            g = gpd.GeoSeries(mine)
        elif kind == "frame2":
            mine = [sel, others[1], others[2]]
            g = gpd.GeoDataFrame(geometry=mine, crs="EPSG:4326")
        elif kind == "framecols":
            mine = [others[1], sel]
            g = gpd.GeoDataFrame({"name": ["a", "b"], "geometry": mine}, crs="EPSG:4326")
        else:
            mine = [others[1], sel]
            g = gpd.GeoDataFrame({"name": ["a", "b"], "geometry": mine}, index=[7, 3], crs="EPSG:4326")
        if kind == "multi" and not g.is_valid:
            ctx.skip()
            continue
        if kind == "polygon" and not g.is_valid:
            ctx.skip()
            continue
        before = frame_fingerprint(g) if isinstance(g, gpd.GeoDataFrame) else [x.wkt for x in g] if isinstance(g, gpd.GeoSeries) else g.wkt
        r = normalize_geometry(g)
        after = frame_fingerprint(g) if isinstance(g, gpd.GeoDataFrame) else [x.wkt for x in g] if isinstance(g, gpd.GeoSeries) else g.wkt
        ctx.step()
        ctx.state(("norm", f, kind))
        require(before == after, "normalizing changed the caller's %s" % kind, sig="caller changed")
        require(isinstance(r, gpd.GeoDataFrame) and len(r) == len(mine) and str(r.crs).upper() == "EPSG:4326", "normalizing a %s returns %r" % (kind, type(r)), kind=kind)
        for p, s in zip(r.geometry, mine):
            w = want[[i for i, x in enumerate(polys) if x is s][0]]
            if kind == "multi":
                w = unary_union([w, box(60, -40, 70, -30)])
            compare(p, w, s, {"kind": kind})
        if kind in ("framecols", "frameindex"):
            require(list(r["name"]) == ["a", "b"] and list(r.index) == list(g.index), "other columns or index changed", kind=kind)
        require(r is not g, "the caller's frame is returned itself", kind=kind)
        ctx.trace(("norm", f, kind))
    for bad in (Polygon([(0, 0), (10, 10), (10, 0), (0, 10)]), MultiPolygon([box(0, 0, 10, 10), box(5, 5, 15, 15)])):
        try:
            normalize_geometry(bad)
        except ValueError:
            ctx.step()
            continue
        raise Violation("an invalid geometry was accepted: %s" % bad.wkt)
