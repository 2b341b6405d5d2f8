"""C07: sample grids are complete, uniquely identified and mask-consistent.

Reference model: the global lattice is computed here from its definition, and
masking is point-in-polygon / polygon intersection applied to that lattice.
"""
import math

import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.affinity import translate

from tatc.generation import (generate_equally_spaced_cells, generate_equally_spaced_points, generate_fibonacci_lattice_points)
from mc.core import require
from mc.common import close

A, B = 6378137.0, 6356752.314245179
R = (2 * A + B) / 3
BOUNDS = {
    "quick": "10 sample distances (dividing the circle, just off a divisor, fractional parts on either side of one half) x about 90 masks (rectangles on lattice, half-lattice and generic offsets, triangles, holes, multi-part, polar, antimeridian, past 180 degrees, sliver, invalid) x points, Fibonacci points, cells, latitude and longitude strips x elevations; a lattice of 18000 points under 8 narrow masks at the poles, the antimeridian, the prime meridian and the equator",
    "thorough": "18 sample distances x about 300 masks",
}
CHUNK = 1
THETAS = [30.0, 45.0, 20.0, 24.0, 13.0, 11.0, 50.0, 100.0, 36.0 * (1 + 1e-13), 36.0 * (1 - 1e-13)]
MORE = [10.0, 15.0, 17.0, 7.0, 29.3, 33.333333, 60.0, 90.0]


def masks(theta, tier):
    t = theta
    rect = []
    lon = [-180 + t, -180 + 1.5 * t, -30.0, -7.3, 0.0, 12.5, 180 - 2.2 * t]
    lat = [-90.0, -90 + t, -90 + 1.5 * t, -11.1, 0.0, 33.3]
    wid = [(1.0, 1.0), (2.5, 1.5), (4.2, 2.0)]
    k = 0
    for a in lon:
        for b in lat:
            for w, hgt in wid:
                k += 1
                if tier == "quick" and k % 3:
                    continue
                x1, y1 = min(a + w * t, 180.0), min(b + hgt * t, 90.0)
                if x1 - a > 1e-3 and y1 - b > 1e-3 and a >= -180:
                    rect.append(("rect", box(a, b, x1, y1)))
    out = rect[:]
    out += [
        ("globe", box(-180, -90, 180, 90)), ("north", box(-180, 60, 180, 90)), ("south", box(-180, -90, 180, -50)),
        ("west", box(-180, -90, 0, 90)), ("east", box(0, -90, 180, 90)), ("small", box(0.1, 0.1, 0.2, 0.2)),
        ("sliver", box(-170, 3.0, 170, 3.05)), ("vsliver", box(4.0, -80, 4.05, 80)),
        ("tri", Polygon([(-50, -40), (60, -10), (10, 50)])), ("tri2", Polygon([(100, 80), (179, -85), (-100, -20)])),
        ("diamond", Polygon([(0, -70), (120, 0), (0, 70), (-120, 0)])),
        ("concave", Polygon([(-100, -60), (100, -60), (100, 60), (70, 60), (70, -30), (-70, -30), (-70, 60), (-100, 60)])),
        ("hole", Polygon([(-100, -60), (100, -60), (100, 60), (-100, 60)], [[(-40, -20), (40, -20), (40, 20), (-40, 20)]])),
        ("multi", MultiPolygon([box(-150, -70, -90, -10), box(20, 5, 95, 66)])),
        ("multi2", MultiPolygon([box(-180, -30, -150, 30), box(150, -30, 180, 30)])),
        ("past", box(150, -40, 230, 40)), ("past2", box(170, -90, 190, 90)), ("past3", box(181, -10, 260, 75)),
        ("past4", box(-60, -50, 200, 50)), ("past5", box(10, -50, 300, 20)), ("pasttri", Polygon([(140, -60), (250, 0), (160, 70)])),
        ("pastmulti", MultiPolygon([box(100, -30, 140, 30), box(185, -60, 240, 10)])), ("past6", box(100, -89, 459, 89)),
        ("bow", Polygon([(-100, 25), (-50, 25), (-100, -25), (-50, -25)])), ("bow2", MultiPolygon([box(0, 0, 50, 50), box(20, 20, 70, 70)])),
    ]
    return out


def cases(tier):
    for t in THETAS + ([] if tier == "quick" else MORE):
        n = len(masks(t, tier))
        for j in range(0, n, 6):
            yield {"theta": t, "m": list(range(j, min(n, j + 6))), "tier": tier}
        yield {"theta": t, "m": None, "tier": tier}
    for k in range(len(FINE)):
        yield {"theta": 1.7, "fine": k}


FINE = [box(-180, 88.2, 180, 90), box(-180, -90, 180, -88.2), box(-180, 89.2, 180, 90), box(-180, -90, 180, -89.1), Polygon([(-150, 87.9), (60, 87.5), (170, 89.7), (-30, 88.9)]), box(-180, -90, -178.9, 90),
        box(178.7, -89, 181.2, 89.5), box(-0.9, -90, 0.9, 90), box(-180, -0.9, 180, 0.9), Polygon([(3, -89.9), (60, -88.2), (-40, -87.7)])]


def fine(c, ctx):
    """A lattice of many thousand points under narrow masks."""
    t, m = c["theta"] if c["fine"] > 1 else 1.05, FINE[c["fine"]]
    d = R * math.radians(t)
    w = {"theta": t, "mask": m.wkt[:200]}
    F = table(generate_fibonacci_lattice_points(d, 5.0, m), "point_id", 5.0, w)
    P = table(generate_equally_spaced_points(d, 5.0, m), "point_id", 5.0, w, unique=False)
    ctx.step(2)
    area = 2 * math.pi * A * A + math.pi * B * B / math.sqrt(1 - (B / A) ** 2) * math.log((1 + math.sqrt(1 - (B / A) ** 2)) / (1 - math.sqrt(1 - (B / A) ** 2)))
    n = int(area / (4 * math.pi * R * R * math.sin(d / R / 4) ** 2))
    lon, lat = fib(n)
    x0, y0, x1, y1 = m.bounds
    want, maybe = {}, set()
    for k in range(n):
        for x in (lon[k], lon[k] + 360):
            if x0 - 1e-6 <= x <= x1 + 1e-6 and y0 - 1e-6 <= lat[k] <= y1 + 1e-6:
                if near(m, x, lat[k]):
                    maybe.add(k)
                elif m.contains(Point(x, lat[k])):
                    want[k] = (x, lat[k])
    ctx.skip(len(maybe))
    require(set(want) <= set(F) <= set(want) | maybe, "Fibonacci points: missing %r, extra %r" % (sorted(set(want) - set(F))[:5], sorted(set(F) - set(want) - maybe)[:5]), sig="fine fibonacci", points=n, **w)
    for k, (x, y) in want.items():
        require(abs(F[k].x - x) < 1e-6 and abs(F[k].y - y) < 1e-6, "Fibonacci point %d moved" % k, sig="fine moved", **w)
    nc, nr = nearest(360.0 / t), nearest(180.0 / t)
    exp = got = 0
    if x1 <= 180:
        for i in range(nc):
            for j in range(nr):
                x, y = -180 + (i + 0.5) * t, -90 + (j + 0.5) * t
                if x0 - 1 <= x <= x1 + 1 and y0 - 1 <= y <= y1 + 1:
                    if near(m, x, y):
                        ctx.skip()
                        exp = None
                        break
                    exp += m.contains(Point(x, y))
            if exp is None:
                break
        if exp is not None:
            require(len(P) == exp, "%d equally spaced points instead of %d" % (len(P), exp), sig="fine points", **w)
    ctx.state(("fine", c["fine"], len(F), len(P)))
    ctx.trace(("fine", c["fine"], len(F), len(P)))


def nearest(x):
    """Nearest whole number, None when within rounding error of a half."""
    f = x - math.floor(x)
    return None if abs(f - 0.5) < 1e-6 else int(math.floor(x + 0.5))


def zs(g, el):
    if g.geom_type == "Point":
        return g.has_z and g.z == el
    if g.geom_type == "Polygon":
        return g.has_z and all(abs(c[2] - el) < 1e-6 for r in [g.exterior] + list(g.interiors) for c in r.coords)
    if hasattr(g, "geoms"):
        return all(zs(p, el) for p in g.geoms)
    return g.has_z and all(abs(c[2] - el) < 1e-6 for c in g.coords)


def table(gdf, idc, el, what, unique=True):
    require(list(gdf.columns) == [idc, "geometry"] and str(gdf.crs).upper() == "EPSG:4326", "columns or reference system of the result", columns=list(gdf.columns), **what)
    require(list(gdf.index) == list(range(len(gdf))), "index is not consecutive", **what)
    ids = [int(x) for x in gdf[idc]]
    require(not unique or len(set(ids)) == len(ids), "identifiers are not unique", sig="duplicate identifiers", n=len(ids), unique=len(set(ids)), **what)
    for g in gdf.geometry:
        require(zs(g, el), "elevation missing on a coordinate: %s" % g.wkt[:120], sig="elevation", **what)
    return dict(zip(ids, gdf.geometry))


def fib(n):
    i = np.arange(n)
    phi = (1 + math.sqrt(5)) / 2
    lon = np.mod(360.0 * i / phi, 360.0)
    return np.where(lon > 180, lon - 360, lon), np.degrees(np.arcsin(2 * (i + 1) / (n + 2) - 1))


def near(poly, x, y, tol=1e-7):
    return poly.boundary.distance(Point(x, y)) < tol


def check(c, ctx):
    if "fine" in c:
        return fine(c, ctx)
    t = c["theta"]
    d = R * math.radians(t)
    nc, nr = nearest(360.0 / t), nearest(180.0 / t)
    what = {"theta": t}
    div = abs(360.0 / t - round(360.0 / t)) < 1e-9
    area = 2 * math.pi * A * A + math.pi * B * B / math.sqrt(1 - (B / A) ** 2) * math.log((1 + math.sqrt(1 - (B / A) ** 2)) / (1 - math.sqrt(1 - (B / A) ** 2)))
    nf = int(area / (4 * math.pi * R * R * math.sin(d / R / 4) ** 2))
    gp = table(generate_equally_spaced_points(d), "point_id", 0, what)
    gc = table(generate_equally_spaced_cells(d), "cell_id", 0, what)
    gf = table(generate_fibonacci_lattice_points(d), "point_id", 0, what)
    sl = table(generate_equally_spaced_cells(d, strips="lat"), "cell_id", 0, what)
    so = table(generate_equally_spaced_cells(d, strips="lon"), "cell_id", 0, what)
    ctx.step(5)
    if c["m"] is None:
        globe(c, ctx, what, t, nc, nr, nf, gp, gc, gf, sl, so)
        for el in (0, 250, 1234.5, -5.0):
            for f, idc, ref in ((generate_equally_spaced_points, "point_id", gp), (generate_equally_spaced_cells, "cell_id", gc), (generate_fibonacci_lattice_points, "point_id", gf)):
                r = table(f(d, el), idc, el, dict(what, elevation=el))
                require(set(r) == set(ref), "elevation changes the grid", **what)
                ctx.step()
        ctx.trace(("globe", t))
        return
    ms = masks(t, c["tier"])
    for j in c["m"]:
        name, m = ms[j]
        el = [0, 77.5, -3][j % 3]
        w = dict(what, mask=m.wkt[:200])
        ctx.state((t, j))
        fs = [lambda: generate_equally_spaced_points(d, el, m), lambda: generate_fibonacci_lattice_points(d, el, m),
              lambda: generate_equally_spaced_cells(d, el, m), lambda: generate_equally_spaced_cells(d, el, m, "lat"),
              lambda: generate_equally_spaced_cells(d, el, m, strips="lon")]
        if not m.is_valid:
            for f in fs:
                ctx.step()
                try:
                    f()
                except ValueError:
                    continue
                require(False, "an invalid mask was accepted", **w)
            ctx.trace(("invalid", t, j))
            continue
        past = m.bounds[2] > 180
        P, F, C, SL, SO = [table(f(), idc, el, w, unique=not past or div or free)
                           for f, idc, free in zip(fs, ("point_id", "point_id", "cell_id", "cell_id", "cell_id"), (0, 1, 0, 1, 0))]
        ctx.step(5)
        # --- Fibonacci points
        expect(F, gf, m, past, w, "Fibonacci points", ctx)
        x0, y0, x1, y1 = m.bounds
        # --- equally spaced points and cells
        if not past or div:
            expect(P, gp, m, past, w, "equally spaced points", ctx)
            cells(C, gc, gp, m, past, w, ctx)
        else:
            ctx.skip(2)
        # --- strips
        for S, G, axis in ((SL, sl, 1), (SO, so, 0)):
            if axis == 0 and past and not div:
                ctx.skip()
                continue
            for k, g in G.items():
                b = g.bounds
                for sh in ((0, 360) if axis == 0 and past else (0,)):
                    lo, hi = b[axis] + sh, b[axis + 2] + sh
                    cen = (lo + hi) / 2
                    mlo, mhi = m.bounds[axis], m.bounds[axis + 2]
                    strip = box(x0, lo, x1, hi) if axis == 1 else box(lo, y0, hi, y1)
                    if min(abs(cen - mlo), abs(cen - mhi)) < 1e-7:
                        ctx.skip()
                        break
                    if mlo < cen < mhi:
                        cell(S.get(k), strip, m, w, "strip %d" % k, ctx)
                        break
                else:
                    require(k not in S, "strip %d is not centred within the mask" % k, sig="strip extra", **w)
            require(set(S) <= set(G), "strip identifiers differ from the global ones", **w)
        ctx.trace((t, j, len(P), len(F), len(C)))


def expect(got, glob, m, past, w, kind, ctx):
    require(set(got) <= set(glob), "%s: identifiers that the global grid does not have" % kind, **w)
    for k, g in glob.items():
        cand = [(g.x, g.y)] + ([(g.x + 360, g.y)] if past else [])
        if any(near(m, x, y) for x, y in cand):
            ctx.skip()
            continue
        ins = [(x, y) for x, y in cand if m.contains(Point(x, y))]
        if ins:
            require(k in got, "%s: point %d inside the mask is missing (%.4f, %.4f)" % (kind, k, g.x, g.y), sig=kind + " missing", **w)
            p = got[k]
            require(any(abs(p.x - x) < 1e-7 and abs(p.y - y) < 1e-7 for x, y in ins), "%s: point %d moved to (%.6f, %.6f)" % (kind, k, p.x, p.y), sig=kind + " moved", **w)
        else:
            require(k not in got, "%s: point %d outside the mask is included" % (kind, k), sig=kind + " extra", **w)
    ctx.count("points compared", len(glob))


def cell(g, cellbox, m, w, kind, ctx):
    want = cellbox.intersection(m)
    if want.area < 1e-9:
        ctx.skip()
        return
    want = want.convex_hull
    require(g is not None, "%s is missing" % kind, sig="cell missing", **w)
    require(g.geom_type == "Polygon" and g.symmetric_difference(want).area < 1e-6, "%s has a wrong shape: %s instead of %s" % (kind, g.wkt[:160], want.wkt[:160]), sig="cell shape", **w)


def cells(got, glob, pts, m, past, w, ctx):
    require(set(got) <= set(glob), "cell identifiers that the global grid does not have", **w)
    x0, y0, x1, y1 = m.bounds
    for k, g in glob.items():
        cx, cy = pts[k].x, pts[k].y
        for sh in ((0, 360) if past else (0,)):
            e = min(abs(cx + sh - x0), abs(cx + sh - x1), abs(cy - y0), abs(cy - y1))
            if e < 1e-7:
                ctx.skip()
                break
            if x0 < cx + sh < x1 and y0 < cy < y1:
                cell(got.get(k), translate(g, sh), m, w, "cell %d" % k, ctx)
                break
        else:
            require(k not in got, "cell %d is not centred within the mask bounds" % k, sig="cell extra", **w)


def globe(c, ctx, what, t, nc, nr, nf, gp, gc, gf, sl, so):
    if nc is not None and nr is not None:
        require(len(gp) == nc * nr and len(gc) == nc * nr, "number of points or cells", points=len(gp), cells=len(gc), expected=nc * nr, **what)
        ix = {}
        for k, g in gp.items():
            i, j = (g.x + 180) / t - 0.5, (g.y + 90) / t - 0.5
            require(abs(i - round(i)) < 1e-7 and abs(j - round(j)) < 1e-7, "point %d is off the lattice" % k, **what)
            ix[k] = (int(round(i)), int(round(j)))
            require(k in gc, "point %d has no cell" % k, **what)
            b = gc[k].bounds
            want = (g.x - t / 2, g.y - t / 2, g.x + t / 2, g.y + t / 2)
            require(all(abs(p - q) < 1e-7 for p, q in zip(b, want)) and abs(gc[k].area - t * t) < 1e-6 and gc[k].is_valid,
                    "cell %d is not the square about its point" % k, **what)
            ctx.state(("g", t, k))
        require(sorted(ix.values()) == sorted((i, j) for i in range(nc) for j in range(nr)), "the lattice has gaps or overlaps", **what)
        require(len(sl) == nr and len(so) == nc, "number of strips", **what)
        require(sorted(tuple(round(v, 6) for v in g.bounds) for g in sl.values()) == sorted((-180.0, round(-90 + j * t, 6), 180.0, round(-90 + (j + 1) * t, 6)) for j in range(nr)), "latitude strips", **what)
        require(sorted(tuple(round(v, 6) for v in g.bounds) for g in so.values()) == sorted((round(-180 + j * t, 6), -90.0, round(-180 + (j + 1) * t, 6), 90.0) for j in range(nc)), "longitude strips", **what)
    require(abs(len(gf) - nf) <= 1 and sorted(gf) == list(range(len(gf))), "number or identifiers of Fibonacci points: %d instead of %d" % (len(gf), nf), **what)
    lon, lat = fib(len(gf))
    for k, g in gf.items():
        require(abs((g.x - lon[k] + 180) % 360 - 180) < 1e-6 and -180 <= g.x <= 180 and abs(g.y - lat[k]) < 1e-6, "Fibonacci point %d at (%.5f, %.5f) instead of (%.5f, %.5f)" % (k, g.x, g.y, lon[k], lat[k]), sig="fibonacci", **what)
        ctx.state(("f", t, k))
