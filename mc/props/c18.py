"""C18: footprints and pixels lie where the line of sight meets the ground.

Reference model: plain vector geometry in the Earth-fixed frame.  A line of
sight is nadir + forward*tan(pitch) + right*tan(roll) + its offset inside the
field of view (all in the plane orthogonal to nadir); it is intersected with
the raised ellipsoid, or, if it misses, replaced by the tangent point of the
ellipsoid in the plane of the line of sight and the Earth's centre.
"""
import itertools
import math

import numpy as np
from shapely.geometry import MultiPoint, MultiPolygon, Point, Polygon
from skyfield.framelib import itrs

from tatc.schemas import Instrument, PointedInstrument
from tatc import config
from tatc.utils import compute_footprint, compute_limb, compute_projected_ray_position
from mc.core import Violation, require
from mc.common import dt
from mc.orbits import orbit
from mc.props.c08 import expected, fold, unwrap

A, F = 6378137.0, 1 / 298.257223563
B = A * (1 - F)

ORBITS = ["leo30", "leo98", "retro", "heo", "geo", "equat"]
PHASES = 12
ELEV = [0.0, 2500.0, -400.0]
ROLLS = [0.0, 12.0, -12.0, 35.0, -58.0]
PITCHES = [0.0, 9.0, -9.0, 40.0, -55.0]
FOVS = [(10.0, 10.0), (20.0, 6.0), (3.0, 25.0), (60.0, 30.0), (0.5, 0.5), (110.0, 80.0), (150.0, 150.0), (180.0, 180.0), (40.0, 100.0)]
BOUNDS = {
    "quick": "6 orbits (inclined, near-polar, retrograde, highly eccentric, geostationary, equatorial) x 12 phases over one revolution x 5 roll x 5 pitch x 9 field-of-view pairs x ellipse/rectangle (half of the product, alternating) x elevations and vertex counts cycled; ray lattice of 24 directions; pixel arrays up to 4x3 with oversampling, 2x70, 90x1 and 11x13; plain instruments with 14 fields of regard",
    "thorough": "full product, 24 phases, all elevations and vertex counts",
}
CHUNK = 6
VALIDATION = "each enumerated view is computed by the real functions for all phases at once and for each phase alone, and every vertex is compared with the reference intersection"


def cases(tier):
    q = tier == "quick"
    k = 0
    for o, fv, rect in itertools.product(ORBITS, range(len(FOVS)), (False, True)):
        for r, p in itertools.product(range(len(ROLLS)), range(len(PITCHES))):
            k += 1
            if q and (r + p + fv + int(rect)) % 2:
                continue
            for e in ([k % 3] if q else range(3)):
                yield {"k": "foot", "o": o, "fov": fv, "rect": rect, "r": r, "p": p, "e": e, "n": [None, 5, 9][(k // 3) % 3], "ph": PHASES if q else 24}
    for o, r, p in itertools.product(ORBITS, range(len(ROLLS)), range(len(PITCHES))):
        yield {"k": "ray", "o": o, "r": r, "p": p, "ph": PHASES if q else 24}
        yield {"k": "pix", "o": o, "r": r, "p": p, "ph": 4 if q else 12}
    for o in ORBITS:
        yield {"k": "plain", "o": o, "ph": PHASES if q else 24}
        yield {"k": "limb", "o": o, "ph": PHASES if q else 24}


_TR = {}


def track(name, n):
    """(vector orbit track, scalar orbit tracks, positions, velocities)"""
    if (name, n) not in _TR:
        tle = orbit(name).to_tle()
        per = 86400.0 / tle.get_mean_motion()
        ts = [dt(round(per * (k + 0.37) / n, 3)) for k in range(n)]
        v = tle.get_orbit_track(ts)
        s = [tle.get_orbit_track(t) for t in ts]
        x, u = v.frame_xyz_and_velocity(itrs)
        _TR[(name, n)] = (ts, v, s, x.m.T, u.m_per_s.T)
    return _TR[(name, n)]


def frame(x, u):
    v = u / np.linalg.norm(u)
    b = -x / np.linalg.norm(x)
    return v, np.cross(v, b), b


def meet(x, ray, el):
    """Surface point of a line of sight, or None with the limb point."""
    s = np.array([A + el, A + el, B + el])
    p, d = x / s, ray / s
    d = d / np.linalg.norm(d)
    bq = p @ d
    disc = bq * bq - (p @ p - 1)
    if disc >= 0 and bq < 0:
        return (p + (-bq - math.sqrt(disc)) * d) * s, True, disc
    pp = math.sqrt(p @ p)
    e = d - (d @ p) * p / (pp * pp)
    e = e / np.linalg.norm(e)
    return (p / pp ** 2 + math.sqrt(1 - 1 / pp ** 2) * e) * s, False, disc


def geodetic(pt):
    """Longitude, latitude (degrees) of an Earth-fixed point."""
    x, y, z = pt
    e2 = F * (2 - F)
    r = math.hypot(x, y)
    lat = math.atan2(z, r * (1 - e2))
    for _ in range(30):
        n = A / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        lat = math.atan2(z + e2 * n * math.sin(lat), r)
    return math.degrees(math.atan2(y, x)), math.degrees(lat)


def tan(deg):
    return math.tan(math.radians(deg))


def offsets(fov, rect, n):
    """Tangent-plane offsets (right, forward) of the vertices of a view."""
    c, a = tan(fov[0] / 2), tan(fov[1] / 2)
    if not rect:
        return [(c * math.cos(t), a * math.sin(t)) for t in np.linspace(0, 2 * math.pi, n)]
    th = math.atan2(a, c)
    out = []
    for side, (t0, t1) in enumerate(((-th, th), (th, math.pi - th), (math.pi - th, math.pi + th), (math.pi + th, 2 * math.pi - th))):
        for t in np.linspace(t0, t1, n, endpoint=False):
            if side % 2 == 0:
                s = 1 if side == 0 else -1
                out.append((s * c, s * c * math.tan(t)))
            else:
                s = 1 if side == 1 else -1
                out.append((s * a / math.tan(t), s * a))
    return out


def sight(fr, roll, pitch, off):
    v, n, b = fr
    return b + n * (tan(roll) + off[0]) + v * (tan(pitch) + off[1])


# second result: undecided, i.e. a line of sight grazes the surface or the whole view misses the Earth
def vertices(x, u, fov, roll, pitch, rect, n, el):
    fr = frame(x, u)
    out, edge, hits = [], False, 0
    for off in offsets(fov, rect, n):
        pt, hit, disc = meet(x, sight(fr, roll, pitch, off), el)
        edge = edge or abs(disc) < 1e-9
        hits += hit
        out.append(geodetic(pt))
    c, a = tan(fov[0] / 2), tan(fov[1] / 2)
    r, p = tan(roll), tan(pitch)
    nadir = (abs(r) < c and abs(p) < a) if rect else (r / c) ** 2 + (p / a) ** 2 < 1
    return out, edge or (not hits and not nadir)


def polys(g):
    return list(g.geoms) if isinstance(g, MultiPolygon) else [g]


def ring_check(got, ring, el, what, ctx, nvert=None):
    """The result is the region bounded by the reference ring."""
    require(isinstance(got, (Polygon, MultiPolygon)) and not got.is_empty, "footprint is %r" % type(got), sig="type", **what)
    for p in polys(got):
        require(all(abs(c[2] - el) < 1e-6 for r in [p.exterior] + list(p.interiors) for c in r.coords), "a footprint vertex is not at the elevation", sig="z", **what)
    bd = got.boundary
    for lon, lat in ring:
        if abs(lat) > 89.9:
            continue
        d = min(bd.distance(Point(lon + k, lat)) for k in (0, -360, 360))
        require(d < 2e-6 / max(0.02, math.cos(math.radians(lat))), "the line of sight meets the ground at (%.6f, %.6f), %.3g degrees away from the footprint's outline" % (lon, lat, d), sig="vertex", got=got.wkt[:250], **what)
    ctx.count("vertices", len(ring))
    u = unwrap(ring + [ring[0]])
    turn = round((u[-1][0] - u[0][0]) / 360.0)
    if turn == 0:
        pl = Polygon(u)
        if not pl.is_valid or pl.bounds[2] - pl.bounds[0] > 355:
            ctx.skip()
            return
    elif any(abs(a[0] - b[0]) > 170 for a, b in zip(u, u[1:])) or any(a[0] >= b[0] for a, b in zip(u, u[1:])) and any(a[0] <= b[0] for a, b in zip(u, u[1:])):
        ctx.skip()
        return
    if any(abs(abs(a[0] - b[0]) - 180) < 1e-6 for a, b in zip(ring, ring[1:])):
        ctx.skip()
        return
    want = expected(ring, None)
    d = got.symmetric_difference(want).area
    require(d < 1e-5 * max(1.0, want.area), "the footprint covers another region: %.4g of %.4g square degrees differ" % (d, want.area), sig="region", got=got.wkt[:250], want=want.wkt[:250], **what)
    ctx.count("regions")


def position_close(lon, lat, ref, tol=2e-6):
    s = max(0.02, math.cos(math.radians(ref[1])))
    if abs(ref[1]) > 89.99:
        return abs(lat - ref[1]) < 1e-4
    return abs((lon - ref[0] + 180) % 360 - 180) * s < tol and abs(lat - ref[1]) < tol


def check(c, ctx):
    ts, tv, tss, xs, us = track(c["o"], c["ph"])
    globals()["_" + c["k"]](c, ctx, ts, tv, tss, xs, us)


def _foot(c, ctx, ts, tv, tss, xs, us):
    fov, rect, roll, pitch, el, n = FOVS[c["fov"]], c["rect"], ROLLS[c["r"]], PITCHES[c["p"]], ELEV[c["e"]], c["n"]
    kw = dict(roll_angle=roll, pitch_angle=pitch, is_rectangular=rect, number_points=n, elevation=el)
    many = compute_footprint(tv, fov[0], fov[1], **kw)
    ins = PointedInstrument(name="p", field_of_regard=50, cross_track_field_of_view=fov[0], along_track_field_of_view=fov[1], roll_angle=roll, pitch_angle=pitch, is_rectangular=rect)
    viains = ins.compute_footprint(tv, n, el)
    cen = ins.compute_footprint_center(tv, el)
    ctx.step(3)
    require(isinstance(many, list) and len(many) == len(ts), "not one footprint per time", c=c)
    nn = n or (config.rc.footprint_points_rectangular_side if rect else config.rc.footprint_points_elliptical)
    for i in range(len(ts)):
        what = {"phase": i, "fov": fov, "roll": roll, "pitch": pitch, "rect": rect, "elevation": el}
        ctx.state((c["o"], i, c["fov"], rect, c["r"], c["p"], el, n))
        ring, edge = vertices(xs[i], us[i], fov, roll, pitch, rect, nn, el)
        if edge:
            ctx.skip()
        else:
            ring_check(many[i], ring, el, what, ctx)
        one = compute_footprint(tss[i], fov[0], fov[1], **kw)
        ctx.step()
        require(same(one, many[i]) and same(viains[i], many[i]), "one time alone, all at once or through the instrument give different footprints", sig="vector", one=one.wkt[:200], many=many[i].wkt[:200], **what)
        ref, hit, disc = meet(xs[i], sight(frame(xs[i], us[i]), roll, pitch, (0, 0)), el)
        if abs(disc) > 1e-9:
            g = geodetic(ref)
            require(position_close(cen.longitude.degrees[i], cen.latitude.degrees[i], g), "footprint centre (%.6f, %.6f), expected (%.6f, %.6f)" % (cen.longitude.degrees[i], cen.latitude.degrees[i], g[0], g[1]), sig="centre", **what)
            if hit and fov[0] < 30 and fov[1] < 30 and not edge:
                p1 = ins.compute_footprint_center(tss[i], el)
                require(position_close(p1.longitude.degrees, p1.latitude.degrees, g), "footprint centre of a single time", sig="centre", **what)
    ctx.trace((c["o"], c["fov"], rect, c["r"], c["p"]))


def same(a, b):
    return a.equals_exact(b, 1e-9) or a.symmetric_difference(b).area < 1e-8 * max(1.0, a.area)


def _ray(c, ctx, ts, tv, tss, xs, us):
    roll, pitch = ROLLS[c["r"]], PITCHES[c["p"]]
    for j, (fi, rect, el) in enumerate(itertools.product((0, 1, 2, 3, 5), (False, True), ELEV)):
        fov = FOVS[fi]
        cc, aa = tan(fov[0] / 2), tan(fov[1] / 2)
        th = math.atan2(aa, cc)
        for k in range(8):
            t = 2 * math.pi * (k + 0.31 * (j % 3)) / 8
            if rect:
                cx, sx = math.cos(t), math.sin(t)
                m = min(cc / abs(cx) if abs(cx) > 1e-12 else 9e9, aa / abs(sx) if abs(sx) > 1e-12 else 9e9)
                off = (m * cx, m * sx)
            else:
                off = (cc * math.cos(t), aa * math.sin(t))
            p = compute_projected_ray_position(tv, fov[0], fov[1], roll, pitch, rect, t, el)
            ctx.step()
            for i in range(len(ts)):
                pt, hit, disc = meet(xs[i], sight(frame(xs[i], us[i]), roll, pitch, off), el)
                if abs(disc) < 1e-9:
                    ctx.skip()
                    continue
                g = geodetic(pt)
                require(position_close(p.longitude.degrees[i], p.latitude.degrees[i], g), "line of sight meets (%.6f, %.6f), reported (%.6f, %.6f)" % (g[0], g[1], p.longitude.degrees[i], p.latitude.degrees[i]), sig="ray", phase=i, fov=fov, roll=roll, pitch=pitch, rect=rect, angle=t, hit=hit, elevation=el)
                require(abs(p.elevation.m[i] - el) < 0.01 * abs(el) + 1e-3, "reported elevation %.3f, expected %.3f" % (p.elevation.m[i], el), sig="ray elevation")
                ctx.state((c["o"], i, c["r"], c["p"], fi, rect, k, hit))
        i = j % len(ts)
        q = compute_projected_ray_position(tss[i], fov[0], fov[1], roll, pitch, rect, t, el)
        require(abs(q.latitude.degrees - p.latitude.degrees[i]) < 1e-9 and abs((q.longitude.degrees - p.longitude.degrees[i] + 180) % 360 - 180) < 1e-8, "single time differs from the vector result", sig="vector ray")
        ctx.step()
    ctx.trace(("ray", c["o"], c["r"], c["p"]))


def _pix(c, ctx, ts, tv, tss, xs, us):
    roll, pitch = ROLLS[c["r"]], PITCHES[c["p"]]
    for j, (nc, na, oc, oa, fov, el) in enumerate([(1, 1, 0, 0, (10, 10), 0.0), (2, 1, 0, 0, (10, 4), 0.0), (1, 3, 0, 0, (2, 12), 2500.0), (4, 3, 0, 0, (24, 9), 0.0), (3, 2, 0.25, 0, (12, 8), -400.0), (2, 4, 0, 0.5, (8, 20), 0.0), (3, 3, 0.1, 0.4, (60, 45), 0.0)] + ([(2, 70, 0, 0.2, (6, 40), 0.0), (90, 1, 0.1, 0, (50, 5), 0.0), (11, 13, 0, 0, (22, 30), 1000.0)] if c["r"] == c["p"] else [])):
        for rect in (True, False):
            ins = PointedInstrument(name="p", cross_track_field_of_view=fov[0], along_track_field_of_view=fov[1], roll_angle=roll, pitch_angle=pitch, is_rectangular=rect,
                                    cross_track_pixels=nc, along_track_pixels=na, cross_track_oversampling=oc, along_track_oversampling=oa)
            arr = ins.compute_footprint_pixel_array(tv, el)
            ctx.step()
            require(isinstance(arr, list) and len(arr) == len(ts), "not one pixel array per time")
            for i in range(len(ts)):
                pts = list(arr[i].geoms)
                require(len(pts) == nc * na, "%d pixels instead of %d" % (len(pts), nc * na), sig="pixel count")
                fr = frame(xs[i], us[i])
                want = {}
                for a, b in itertools.product(range(nc), range(na)):
                    off = ((a - (nc - 1) / 2) * fov[0] * (1 - oc) / nc, ((na - 1) / 2 - b) * fov[1] * (1 - oa) / na)
                    cone = math.hypot(*off)
                    t = (0.0, 0.0) if cone == 0 else (tan(cone) * off[0] / cone, tan(cone) * off[1] / cone)
                    pt, hit, disc = meet(xs[i], sight(fr, roll, pitch, t), el)
                    g = geodetic(pt)
                    want[(a, b)] = g
                    what = {"pixel": (a, b), "of": (nc, na), "fov": fov, "roll": roll, "pitch": pitch, "phase": i}
                    ctx.state((c["o"], i, c["r"], c["p"], j, a, b, rect))
                    if abs(disc) < 1e-9:
                        ctx.skip()
                        continue
                    got = pts[a * na + b]
                    require(position_close(got.x, got.y, g), "pixel at (%.6f, %.6f), its line of sight meets (%.6f, %.6f)" % (got.x, got.y, g[0], g[1]), sig="pixel", **what)
                    require(abs(got.z - el) < 0.01 * abs(el) + 1e-3, "pixel elevation %.3f" % got.z, sig="pixel z", **what)
                    if rect:
                        one = ins.compute_projected_pixel_position(tss[i], a, b, el)
                        require(position_close(one.longitude.degrees, one.latitude.degrees, g), "single pixel position differs", sig="pixel one", **what)
                        ctx.step()
            one = ins.compute_footprint_pixel_array(tss[0], el)
            ctx.step()
            require(isinstance(one, MultiPoint) and len(one.geoms) == nc * na and all(a.distance(b) < 1e-8 for a, b in zip(one.geoms, arr[0].geoms)), "pixel array of a single time differs", sig="pixel vector")
    ctx.trace(("pix", c["o"], c["r"], c["p"]))


def _plain(c, ctx, ts, tv, tss, xs, us):
    for k, f in enumerate((1.0, 10.0, 45.0, 90.0, 114.5, 130.0, 150.0, 175.0, 180.0, 180.5, 200.0, 270.0, 359.0, 360.0)):
        ins = Instrument(name="i", field_of_regard=f)
        el = ELEV[k % 3]
        for n in (None, 8):
            got = ins.compute_footprint(tv, n, el)
            ctx.step()
            fv = min(f, 180.0)
            for i in range(len(ts)):
                ring, edge = vertices(xs[i], us[i], (fv, fv), 0, 0, False, n or config.rc.footprint_points_elliptical, el)
                ctx.state((c["o"], i, f, n))
                if edge:
                    ctx.skip()
                    continue
                ring_check(got[i], ring, el, {"field_of_regard": f, "phase": i, "elevation": el}, ctx)
            one = ins.compute_footprint(tss[k % len(ts)], n, el)
            require(same(one, got[k % len(ts)]), "footprint of a single time differs", sig="vector")
            ctx.step()
        cen = ins.compute_footprint_center(tv, el)
        for i in range(len(ts)):
            g = geodetic(meet(xs[i], -xs[i], el)[0])
            require(position_close(cen.longitude.degrees[i], cen.latitude.degrees[i], g), "nadir point (%.6f, %.6f), expected (%.6f, %.6f)" % (cen.longitude.degrees[i], cen.latitude.degrees[i], g[0], g[1]), sig="centre")
    ctx.trace(("plain", c["o"]))


def _limb(c, ctx, ts, tv, tss, xs, us):
    for n, el in itertools.product((None, 8, 33), ELEV):
        kw = {} if n is None else {"number_points": n}
        got = compute_limb(tv, elevation=el, **kw)
        ctx.step()
        require(isinstance(got, list) and len(got) == len(ts), "not one limb per time")
        s = np.array([A + el, A + el, B + el])
        for i in range(len(ts)):
            ctx.state(("limb", c["o"], i, n, el))
            what = {"phase": i, "n": n, "elevation": el}
            p = xs[i] / s
            seen = []
            for g in polys(got[i]):
                for q in g.exterior.coords:
                    require(abs(q[2] - el) < 1e-6, "limb vertex not at the elevation", sig="z", **what)
                    if abs(q[0]) > 180 - 1e-9 or abs(q[0]) < 1e-9 or abs(q[1]) > 90 - 1e-9:
                        continue  # added by the split
                    ref = surface(q[0], q[1], s)
                    r = ref @ p - 1  # 0 on the limb (polar plane)
                    require(abs(r) < 3e-6 * (p @ p), "limb vertex (%.5f, %.5f) does not lie on the limb (%.3g)" % (q[0], q[1], r), sig="limb", **what)
                    seen.append((round(q[0], 6), round(q[1], 6)))
            require(len(set(seen)) >= (n or 16) - 2, "only %d limb vertices" % len(set(seen)), sig="limb count", **what)
            sub = geodetic(xs[i])
            require(any(got[i].buffer(1e-6).contains(Point(sub[0] + k, sub[1])) for k in (0, 360, -360)), "the sub-satellite point is outside the limb", sig="limb inside", **what)
            one = compute_limb(tss[i], elevation=el, **kw)
            require(same(one, got[i]), "limb of a single time differs", sig="vector", **what)
            ctx.step()
    ctx.trace(("limb", c["o"]))


def surface(lon, lat, s):
    """Scaled point of the raised ellipsoid at geodetic longitude/latitude (with respect to WGS 84)."""
    lo, la = math.radians(lon), math.radians(lat)
    e2 = F * (2 - F)
    n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    d = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    base = np.array([n * math.cos(la) * math.cos(lo), n * math.cos(la) * math.sin(lo), n * (1 - e2) * math.sin(la)])
    lo_h, hi_h = -1e5, 1e5
    for _ in range(100):
        m = (lo_h + hi_h) / 2
        q = (base + m * d) / s
        if q @ q < 1:
            lo_h = m
        else:
            hi_h = m
    return (base + lo_h * d) / s
