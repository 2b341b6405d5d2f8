"""C17: ground tracks and pixels with a mask equal the masked full result.

Reference model: the footprint of every requested time on its own (a disc of
half the swath width about the sub-satellite point in the default plane map,
or the line-of-sight footprint for SPICE), folded to the globe; masks are
applied by plain intersection to each footprint, aggregates are plain unions.
"""
import itertools
import math

import geopandas as gpd
import numpy as np
from shapely.geometry import LineString, MultiPolygon, Point as SPoint, Polygon, box
from shapely.ops import unary_union

from tatc.analysis import collect_ground_pixels, collect_ground_track, compute_ground_track
from tatc.schemas import Instrument, PointedInstrument, Satellite
from mc.core import require
from mc.common import dt
from mc.orbits import orbit
from mc.props import c16
from mc.props.c08 import fold, unwrap
from mc.props.c16 import shadow
from mc.props.c18 import A, F, frame, geodetic, meet, sight
from mc.props.c19 import R, lam_of_eta

ORBITS = ["leo98", "leo30", "retro", "ecc", "polar", "heo"]
TIMES = {
    "one": [dt(1234.5)], "two": [dt(100), dt(4000)],
    "grid": [dt(211.0 * k + 17) for k in range(28)],
    "fine": [dt(1500 + 20.0 * k) for k in range(24)],
    "mixed": [dt(5000), dt(200), dt(2600.25), dt(200), dt(3700.5), dt(900)],
    "long": [dt(330.0 * k) for k in range(44)],
    "empty": [],
}
INS = [
    Instrument(name="a", field_of_regard=24),
    Instrument(name="b", field_of_regard=100, req_self_sunlit=True),
    PointedInstrument(name="c", field_of_regard=80, cross_track_field_of_view=14, along_track_field_of_view=8, roll_angle=30, pitch_angle=-12,
                      is_rectangular=True, cross_track_pixels=3, along_track_pixels=2, req_target_sunlit=True),
    PointedInstrument(name="d", field_of_regard=15, cross_track_field_of_view=20, along_track_field_of_view=20, roll_angle=-42, req_self_sunlit=True, req_target_sunlit=False),
    Instrument(name="e", field_of_regard=4),
    PointedInstrument(name="f", field_of_regard=10, cross_track_field_of_view=14, along_track_field_of_view=8, roll_angle=-48, pitch_angle=30,
                      is_rectangular=True, cross_track_pixels=2, along_track_pixels=2, cross_track_oversampling=0.5),
]
MASKS = {
    "small": [box(-10, 30, 5, 45)], "low": [box(100, -10, 120, 10)], "hemi": [box(-180, -90, 0, 90)], "world": [box(-180, -90, 180, 90)],
    "arctic": [box(-180, 66, 180, 90)], "scand": [box(5, 58, 30, 71)], "ant": [box(-60, -90, 60, -75)],
    "anti": [box(170, -40, 180, 40), box(-180, -40, -170, 40)], "wide": [box(-170, -60, 170, 60)],
    "far": [box(-60, -20, -50, -10), box(20, 0, 40, 30), box(130, -35, 150, -15)],
    "hole": [Polygon([(-180, -80), (180, -80), (180, 80), (-180, 80)], [[(-120, -50), (120, -50), (120, 50), (-120, 50)]])],
    "tri": [Polygon([(-170, -80), (160, -10), (-20, 85)])],
}
FORMS = ["shape", "series", "frame", "frame1"]
CRS = ["EPSG:4087", "spice", "utm"]
ELS = [0.0, 1800.0, -150.0]
BOUNDS = {
    "quick": "6 orbits x 7 time lists (empty, single, unsorted with repeats, several orbits) x 5 instruments (plain and pointed, with lighting requirements) x 3 reference systems x (no mask + 12 masks x 4 forms, rotating); aggregated tracks by both methods x dissolve options x masks; pixels (two pointed instruments, one looking far outside of its field of regard) x masks; elevations rotating",
    "thorough": "all masks in all forms for every combination",
}
CHUNK = 2
VALIDATION = "each enumerated call is executed on the real function; every row is compared with the reference footprint of its time and every masked result with the plain intersection"


def cases(tier):
    allf = tier != "quick"
    for o, t, i in itertools.product(range(len(ORBITS)), TIMES, range(5)):
        for c in CRS:
            if c == "utm" and (ORBITS[o] == "heo" or INS[i].field_of_regard > 90):
                continue  # views far wider than a UTM zone
            if not allf and c == "utm" and t in ("long", "fine", "mixed"):
                continue
            yield {"k": "col", "o": o, "t": t, "i": i, "c": c, "all": allf}
        if t != "mixed":
            yield {"k": "agg", "o": o, "t": t, "i": i, "all": allf}
        if i == 3 and t in ("grid", "long", "fine"):
            yield {"k": "pix", "o": o, "t": t, "i": 5, "all": allf}
        if i == 2:
            yield {"k": "pix", "o": o, "t": t, "i": i, "all": allf}


def mask_of(name, form):
    ps = MASKS[name]
    if form == "shape":
        return ps[0] if len(ps) == 1 else MultiPolygon(ps)
    if form == "series":
        return gpd.GeoSeries(ps, crs="EPSG:4326")
    if form == "frame":
        return gpd.GeoDataFrame({"n": range(len(ps))}, geometry=ps, index=[9 - i for i in range(len(ps))], crs="EPSG:4326")
    return gpd.GeoDataFrame(geometry=[ps[0] if len(ps) == 1 else MultiPolygon(ps)], crs="EPSG:4326")


def state(o, t):
    return c16_state(ORBITS[o], t)


_S = {}


def c16_state(name, t):
    key = (name, t.timestamp())
    if key not in _S:
        keep = c16.ORBITS
        try:
            c16.ORBITS = [name]
            c16._X.clear()
            _S[key] = c16.state(0, t)
        finally:
            c16.ORBITS = keep
            c16._X.clear()
    return _S[key]


def enu(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    return up, east, np.cross(up, east)


def ground(lon, lat, el):
    la, lo = math.radians(lat), math.radians(lon)
    e2 = F * (2 - F)
    n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return np.array([(n + el) * math.cos(la) * math.cos(lo), (n + el) * math.cos(la) * math.sin(lo), (n * (1 - e2) + el) * math.sin(la)])


def altaz(pos, lon, lat, el):
    up, east, north = enu(lon, lat)
    d = pos - ground(lon, lat, el)
    d = d / np.linalg.norm(d)
    return math.degrees(math.asin(max(-1, min(1, d @ up)))), math.degrees(math.atan2(d @ east, d @ north)) % 360


def centre(ins, s, el):
    """Longitude, latitude of the centre of the view (None: undecided)."""
    ro, pi = (ins.roll_angle, ins.pitch_angle) if isinstance(ins, PointedInstrument) else (0.0, 0.0)
    pt, hit, disc = meet(s["ecef"], sight(frame(s["ecef"], s["ecefv"]), ro, pi, (0, 0)), el)
    return geodetic(pt) if abs(disc) > 1e-9 else None


def valid(ins, s, lon, lat, el):
    ok = True
    if ins.req_self_sunlit is not None:
        lit, far = shadow(s)
        if far < 5e3:
            return None
        ok = ok and lit == ins.req_self_sunlit
    if ins.req_target_sunlit is not None:
        a = altaz(s["sun"], lon, lat, el)[0]
        if abs(a) < 0.05:
            return None
        ok = ok and (a > 0) == ins.req_target_sunlit
    return ok


def radius(ins, s, el):
    """Half swath width (metres)."""
    return (R + el) * lam_of_eta(s["h"], el, math.radians(min(180, ins.field_of_regard) / 2))


def haversine(lo0, la0, lo1, la1):
    a = math.sin(math.radians(la1 - la0) / 2) ** 2 + math.cos(math.radians(la0)) * math.cos(math.radians(la1)) * math.sin(math.radians(lo1 - lo0) / 2) ** 2
    return 2 * math.asin(math.sqrt(min(1, a)))


def rings(g):
    for p in (g.geoms if hasattr(g, "geoms") else [g]):
        for r in [p.exterior] + list(p.interiors):
            yield list(r.coords)


def bounds_check(got, inner, outer, el, what):
    """inner is covered by got, got is covered by outer (up to slivers)."""
    require(got.geom_type in ("Polygon", "MultiPolygon"), "geometry is a %s" % got.geom_type, sig="type", **what)
    a = inner.difference(got).area
    require(a < 2e-6 * max(1, inner.area), "%.4g square degrees of the footprint are missing" % a, sig="missing", got=got.wkt[:200], **what)
    a = got.difference(outer).area
    require(a < 2e-6 * max(1, outer.area), "%.4g square degrees outside of the footprint are covered" % a, sig="extra", got=got.wkt[:200], **what)
    require(all(len(c) > 2 and abs(c[2] - el) < 1e-6 for r in rings(got) for c in r), "footprint is not at the elevation", sig="z", **what)


def footprint_check(c, got, ins, s, el, what, ctx, t):
    r = radius(ins, s, el)
    if c["c"] == "EPSG:4087":
        d = math.degrees(r / A)
        p = SPoint(s["lon"], s["lat"])
        bounds_check(got, fold(p.buffer(0.982 * d, 64)), fold(p.buffer(1.012 * d, 64)), el, what)
    elif c["c"] == "spice":
        want = ins.compute_footprint(orbit(ORBITS[c["o"]]).to_tle().get_orbit_track(t), None, el)
        ctx.step()
        require(got.symmetric_difference(want).area < 1e-7 * max(1, want.area) + 1e-8, "footprint differs from the instrument's footprint at this time", sig="spice", got=got.wkt[:200], want=want.wkt[:200], **what)
    else:
        rad = r / A
        require(got.buffer(0.05).contains(SPoint(s["lon"], s["lat"])) or abs(s["lat"]) > 88, "footprint does not hold the sub-satellite point", sig="utm", got=got.wkt[:200], **what)
        if r > 9e5:
            ctx.skip()
        else:
            for ring in rings(got):
                for x, y, _ in ring:
                    if abs(abs(x) - 180) < 1e-6 or abs(y) > 89.5:
                        continue
                    d = haversine(s["lon"], s["lat"], x, y) / rad
                    require(0.93 < d < 1.07, "footprint vertex (%.4f, %.4f) at %.3f of the swath" % (x, y, d), sig="utm radius", **what)
        require(all(abs(q[2] - el) < 1e-6 for rr in rings(got) for q in rr), "footprint is not at the elevation", sig="z", **what)


def combos(c):
    ms = list(MASKS)
    if c["all"]:
        return list(itertools.product(ms, FORMS))
    j = c["o"] + 5 * c["i"] + len(c["t"]) + 3 * CRS.index(c.get("c", CRS[0]))
    return [(m, FORMS[(j + k) % 4]) for k, m in enumerate(ms)]


def check(c, ctx):
    globals()["_" + c["k"]](c, ctx)


def make(c):
    return Satellite(name="sat", orbit=orbit(ORBITS[c["o"]]), instruments=[i.model_copy() for i in INS])


def _col(c, ctx):
    sat, times, ins = make(c), TIMES[c["t"]], INS[c["i"]]
    el = ELS[(c["o"] + c["i"]) % 3]
    what = {"orbit": ORBITS[c["o"]], "times": c["t"], "instrument": ins.name, "crs": c["c"], "elevation": el}
    kw = {} if c["c"] == CRS[0] else {"crs": c["c"]}
    cols = {"sat_altaz": bool((c["o"] + c["i"]) % 2), "solar_altaz": bool((c["o"] + len(c["t"])) % 2)}
    args = list(times)
    full = collect_ground_track(sat, args, c["i"], el, **kw, **cols)
    ctx.step()
    require(args == times, "the list of times was changed", **what)
    require(isinstance(full, gpd.GeoDataFrame) and len(full) == len(times), "%d rows for %d times" % (len(full), len(times)), sig="rows", **what)
    for r, t in enumerate(times):
        s, row = state(c["o"], t), full.iloc[r]
        w = dict(what, row=r, time=str(t))
        require(abs((row["time"] - t).total_seconds()) < 1e-4, "row carries time %s" % row["time"], sig="time", **w)
        require(row["satellite"] == "sat" and row["instrument"] == ins.name, "labels", sig="labels", **w)
        footprint_check(c, row["geometry"], ins, s, el, w, ctx, t)
        g = centre(ins, s, el)
        if g is None:
            ctx.skip()
            continue
        ok = valid(ins, s, g[0], g[1], el)
        if ok is None:
            ctx.skip()
        else:
            require(bool(row["valid_obs"]) == ok, "valid_obs %s, expected %s" % (row["valid_obs"], ok), sig="valid", **w)
        for pre, pos, on in (("sat", s["ecef"], cols["sat_altaz"]), ("solar", s["sun"], cols["solar_altaz"])):
            if on:
                al, az = altaz(pos, g[0], g[1], el)
                require(abs(row[pre + "_alt"] - al) < 0.03, "%s altitude %.3f, expected %.3f" % (pre, row[pre + "_alt"], al), sig=pre + "_alt", **w)
                if al < 85:
                    require(abs((row[pre + "_az"] - az + 180) % 360 - 180) * math.cos(math.radians(al)) < 0.03, "%s azimuth %.3f, expected %.3f" % (pre, row[pre + "_az"], az), sig=pre + "_az", **w)
        ctx.state((c["o"], c["t"], c["i"], c["c"], r))
    ctx.trace((c["o"], c["t"], c["i"], c["c"], None))
    for mn, form in combos(c):
        m = mask_of(mn, form)
        got = collect_ground_track(sat, args, c["i"], el, mask=m, **kw, **cols)
        ctx.step()
        u = unary_union(MASKS[mn])
        inter = [g.intersection(u) for g in full.geometry]
        masked_check(full, got, inter, dict(what, mask=(mn, form)), ctx)
        ctx.state((c["o"], c["t"], c["i"], c["c"], mn, form))
        ctx.trace((c["o"], c["t"], c["i"], c["c"], mn, len(got)))


def masked_check(full, got, inter, what, ctx):
    """Rows of `got` are the non-empty members of `inter`, in order."""
    k = 0
    for r, g in enumerate(inter):
        row = full.iloc[r]
        if k < len(got) and got.iloc[k]["time"] == row["time"] and got.iloc[k]["geometry"].symmetric_difference(g).area < 1e-8 + 1e-8 * g.area:
            for n in full.columns:
                if n not in ("geometry",):
                    a, b = got.iloc[k][n], row[n]
                    require(a == b or abs(a - b) < 1e-7, "column %s of a masked row is %r instead of %r" % (n, a, b), sig="masked column", time=str(row["time"]), **what)
            k += 1
        elif g.area < 1e-7:
            if not g.is_empty:
                ctx.skip()
        else:
            require(False, "the part of the footprint of %s inside the mask (%.4g square degrees) is missing, changed or out of order" % (row["time"], g.area), sig="masked", rows=[str(x) for x in got["time"]][:12], **what)
    require(k == len(got), "%d rows too many: %s" % (len(got) - k, [str(x) for x in got["time"][k:]][:5]), sig="masked extra", **what)


def groups(flags, ids):
    """Maximal runs of valid samples within an orbit."""
    out = []
    for r, (f, i) in enumerate(zip(flags, ids)):
        if not f:
            continue
        if r and flags[r - 1] and ids[r - 1] == i:
            out[-1].append(r)
        else:
            out.append([r])
    return out


def _agg(c, ctx):
    sat, times, ins = make(c), TIMES[c["t"]], INS[c["i"]]
    el = ELS[(c["o"] + c["i"] + 1) % 3]
    per = 86400.0 / sat.orbit.to_tle().get_mean_motion()
    sts = [state(c["o"], t) for t in times]
    x = [(t - times[0]).total_seconds() / per for t in times]
    what = {"orbit": ORBITS[c["o"]], "times": c["t"], "instrument": ins.name, "elevation": el}
    if any(abs(v - round(v)) < 1e-4 for v in x[1:]):
        ctx.skip()
        return
    ids = [int(math.floor(v)) for v in x]
    crss = [CRS[0], "spice"] if c["o"] % 2 else [CRS[0]]
    ms = combos(c)
    if not c["all"]:
        ms = ms[c["i"] % 3::3]
    for crs, method in [(q, "point") for q in crss] + [(CRS[0], "line")]:
        kw = {} if crs == CRS[0] else {"crs": crs}
        if method == "line":
            kw["method"] = "line"
        if method == "point":
            track = collect_ground_track(sat, list(times), c["i"], el, **({} if crs == CRS[0] else {"crs": crs}))
            polys = list(track.geometry)
            flags = [bool(v) for v in track.valid_obs]
            gs = {}
            for r, f in enumerate(flags):
                if f:
                    gs.setdefault(ids[r], []).append(r)
            grp = [gs[k] for k in sorted(gs)]
            want = [unary_union([polys[r] for r in g]) for g in grp]
            bounds = [(w, w) for w in want]
        else:
            fl = [valid(ins, s, s["lon"], s["lat"], 0) for s in sts]
            if any(f is None for f in fl):
                ctx.skip()
                continue
            grp = groups(fl, ids)
            bounds = []
            for g in grp:
                d = math.degrees(np.mean([radius(ins, sts[r], el) for r in g]) / A)
                ln = unwrap([(sts[r]["lon"], sts[r]["lat"]) for r in g])
                segs = [LineString(p) for p in zip(ln, ln[1:])] or [SPoint(ln[0])]
                bounds.append((unary_union([fold(q.buffer(0.982 * d, 64)) for q in segs]), unary_union([fold(q.buffer(1.012 * d, 64)) for q in segs])))
        for mn, form in [(None, None)] + ms:
            mk = {} if mn is None else {"mask": mask_of(mn, form)}
            u = None if mn is None else unary_union(MASKS[mn])
            bs = [b if u is None else (b[0].intersection(u), b[1].intersection(u)) for b in bounds]
            w = dict(what, method=method, crs=crs, mask=(mn, form))
            if any(b[0].area < 1e-6 < b[1].area + 1e-6 and not b[1].is_empty for b in bs):
                ctx.skip()
                continue
            bs = [b for b in bs if not b[1].is_empty]
            for dis in (True, False):
                got = compute_ground_track(sat, list(times), c["i"], el, dissolve_orbits=dis, **kw, **mk)
                ctx.step()
                exp = bs if not dis or not bs else [(unary_union([b[0] for b in bs]), unary_union([b[1] for b in bs]))]
                require(isinstance(got, gpd.GeoDataFrame) and len(got) == len(exp), "%d aggregated rows instead of %d" % (len(got), len(exp)), sig="aggregated rows", dissolve=dis, **w)
                for r, b in enumerate(exp):
                    bounds_check(got.iloc[r]["geometry"], b[0], b[1], el, dict(w, dissolve=dis, row=r))
                    require(got.iloc[r]["satellite"] == "sat" and got.iloc[r]["instrument"] == ins.name, "labels", sig="labels", **w)
                ctx.state((c["o"], c["t"], c["i"], method, crs, mn, form, dis))
                ctx.trace((c["o"], c["t"], c["i"], method, crs, mn, dis, len(got)))


def _pix(c, ctx):
    sat, times, ins = make(c), TIMES[c["t"]], INS[c["i"]]
    el = ELS[(c["o"] + 1) % 3]
    what = {"orbit": ORBITS[c["o"]], "times": c["t"], "elevation": el, "pixels": True}
    cols = {"sat_altaz": bool(c["o"] % 2), "solar_altaz": bool(len(c["t"]) % 2)}
    full = collect_ground_pixels(sat, list(times), c["i"], el, **cols)
    ctx.step()
    n = ins.cross_track_pixels * ins.along_track_pixels
    require(len(full) == n * len(times), "%d pixels for %d times" % (len(full), len(times)), sig="rows", **what)
    for i, t in enumerate(times):
        s = state(c["o"], t)
        arr = ins.compute_footprint_pixel_array(sat.orbit.to_tle().get_orbit_track(t), el)
        for j, p in enumerate(arr.geoms):
            row = full.iloc[i * n + j]
            g, w = row["geometry"], dict(what, time=str(t), pixel=j)
            require(abs((row["time"] - t).total_seconds()) < 1e-4, "pixel carries time %s" % row["time"], sig="time", **w)
            require(g.distance(p) < 1e-7 and abs(g.z - p.z) < 1e-3, "pixel at %s instead of %s" % (g.wkt, p.wkt), sig="pixel", **w)
            ok = valid(ins, s, g.x, g.y, el)
            require(ok is None or bool(row["valid_obs"]) == ok, "valid_obs %s, expected %s" % (row["valid_obs"], ok), sig="valid", **w)
            for pre, pos, on in (("sat", s["ecef"], cols["sat_altaz"]), ("solar", s["sun"], cols["solar_altaz"])):
                if on:
                    al, az = altaz(pos, g.x, g.y, el)
                    require(abs(row[pre + "_alt"] - al) < 0.03, "%s altitude %.3f, expected %.3f" % (pre, row[pre + "_alt"], al), sig=pre + "_alt", **w)
                    if al < 85:
                        require(abs((row[pre + "_az"] - az + 180) % 360 - 180) * math.cos(math.radians(al)) < 0.03, "%s azimuth %.3f, expected %.3f" % (pre, row[pre + "_az"], az), sig=pre + "_az", **w)
    ctx.trace((c["o"], c["t"], "pix"))
    for mn, form in combos(c):
        got = collect_ground_pixels(sat, list(times), c["i"], el, mask=mask_of(mn, form), **cols)
        ctx.step()
        u = unary_union(MASKS[mn])
        w = dict(what, mask=(mn, form))
        near = [u.boundary.distance(g) < 1e-7 for g in full.geometry]
        if any(near):
            ctx.skip()
            continue
        sel = [r for r, g in enumerate(full.geometry) if u.contains(g)]
        require(len(got) == len(sel), "%d pixels instead of %d inside the mask" % (len(got), len(sel)), sig="masked pixels", **w)
        for k, r in enumerate(sel):
            for col in full.columns:
                a, b = got.iloc[k][col], full.iloc[r][col]
                require(a.distance(b) < 1e-7 if col == "geometry" else (a == b or abs(a - b) < 1e-7), "masked pixel %d: %s is %s instead of %s" % (k, col, a, b), sig="masked pixel", **w)
        ctx.state((c["o"], c["t"], "pix", mn, form))
        ctx.trace((c["o"], c["t"], "pix", mn, len(got)))
