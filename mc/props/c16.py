"""C16: orbit tracks report the true state at every requested time.

Reference model: the element set is propagated instant by instant with the
reference propagator; geodetic coordinates, swath width, lighting and Sun
angles are recomputed with explicit vector geometry.
"""
import itertools
import math
from datetime import timedelta, timezone

import geopandas as gpd
import numpy as np
from shapely.geometry import MultiPolygon, Point as SPoint, Polygon, box
from skyfield.framelib import itrs

from tatc.analysis import OrbitCoordinate, OrbitOutput, collect_orbit_track
from tatc.constants import timescale
from tatc.schemas import Instrument, PointedInstrument, Satellite
from mc import env
from mc.core import require
from mc.common import T0, dt, frame_fingerprint, secs
from mc.orbits import orbit
from mc.props.c18 import A, B, F, geodetic
from mc.props.c19 import R, lam_of_eta

ORBITS = ["leo98", "leo30", "retro", "heo", "meo", "polar"]
TIMES = {
    "empty": [],
    "one": [dt(1234.5)],
    "two": [dt(100), dt(4000)],
    "mixed": [dt(5000), dt(200), dt(200), dt(-9000), dt(3700.25), dt(70000), dt(5000)],
    "grid": [dt(400 * k) for k in range(30)],
    "many": [dt(63.0 * k - 500) for k in range(1300)],
    "zone": [(dt(300 * k + 60)).astimezone(timezone(timedelta(hours=5, minutes=30))) for k in range(6)],
    "zones": [(dt(500 * k - 60)).astimezone(timezone(timedelta(hours=(0, 9, -3.5)[k % 3]))) for k in range(5)],
}
INS = [Instrument(name="a", field_of_regard=60), Instrument(name="b", field_of_regard=180, req_self_sunlit=True),
       PointedInstrument(name="c", field_of_regard=25, cross_track_field_of_view=10, along_track_field_of_view=10, roll_angle=20, req_target_sunlit=False),
       Instrument(name="d", field_of_regard=300, req_self_sunlit=False, req_target_sunlit=True)]
MASKS = {
    "west": [box(-180, -90, 0, 90)], "mid": [box(-60, -40, 80, 50)], "tri": [Polygon([(-170, -80), (160, -10), (-20, 85)])],
    "hole": [Polygon([(-180, -90), (180, -90), (180, 90), (-180, 90)], [[(-60, -30), (60, -30), (60, 30), (-60, 30)]])],
    "parts": [box(-180, -90, -90, 10), box(20, -50, 100, 90), box(120, -20, 180, 80)], "cap": [box(-180, 60, 180, 90), box(-180, -90, 180, -60)],
    "none": [box(3, 89.9, 4, 89.95)],
}
FORMS = ["shape", "series", "frame", "frame1"]
COLS = [(), ("sat_sunlit",), ("solar_altaz",), ("solar_beta",), ("sat_sunlit", "solar_altaz", "solar_beta")]
BOUNDS = {
    "quick": "6 orbits x 8 time lists (empty, single, unsorted with repeats, before the epoch, other time zone, several time zones, 1300 instants) x 3 coordinate systems x 2 outputs x (no mask + 7 masks x 4 forms), with 4 instruments, 4 elevations and 5 sets of extra columns rotating so that every pair of choices occurs",
    "thorough": "full product including instruments and extra columns",
}
CHUNK = 2


def cases(tier):
    for o, t, co, ou in itertools.product(range(len(ORBITS)), TIMES, range(3), range(2)):
        if t == "many" and (o, co, ou) not in ((0, 0, 1), (2, 2, 0)):
            continue
        yield {"o": o, "t": t, "c": co, "u": ou, "all": tier != "quick"}


_X = {}


def state(o, t):
    key = (o, t.timestamp())
    if key not in _X:
        sf = timescale.from_datetime(t)
        g = orbit(ORBITS[o]).to_tle().as_skyfield().at(sf)
        m = itrs.rotation_at(sf)
        x = m @ g.position.m
        v = g.frame_xyz_and_velocity(itrs)[1].m_per_s
        lon, lat = geodetic(x)
        la = math.radians(lat)
        e2 = F * (2 - F)
        n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
        r = math.hypot(x[0], x[1])
        h = r * math.cos(la) + (x[2] + e2 * n * math.sin(la)) * math.sin(la) - n
        sun = m @ env.sun_direction(sf.tt) * env.sun_distance_au(sf.tt) * env.AU_KM * 1000
        _X[key] = dict(lon=lon, lat=lat, h=h, ecef=x, ecefv=v, eci=g.position.m, eciv=g.velocity.m_per_s, sun=sun, suni=env.sun_direction(sf.tt))
    return _X[key]


def shadow(s):
    """(sunlit, metres from the shadow's edge) of the satellite."""
    d = s["sun"] / np.linalg.norm(s["sun"])
    along = s["ecef"] @ d
    perp = np.linalg.norm(s["ecef"] - along * d)
    if along > 0:
        return True, 1e9
    return perp > 6378136.6, abs(perp - 6378136.6)


def sun_alt_az(s, h):
    lo, la = math.radians(s["lon"]), math.radians(s["lat"])
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    north = np.cross(up, east)
    d = s["sun"] - up * 6.37e6
    d = d / np.linalg.norm(d)
    return math.degrees(math.asin(d @ up)), math.degrees(math.atan2(d @ east, d @ north)) % 360


def mask_of(name, form):
    ps = MASKS[name]
    if form == "shape":
        return ps[0] if len(ps) == 1 else MultiPolygon(ps)
    if form == "series":
        return gpd.GeoSeries(ps, crs="EPSG:4326")
    if form == "frame":
        return gpd.GeoDataFrame({"n": range(len(ps))}, geometry=ps, index=[9 - i for i in range(len(ps))], crs="EPSG:4326")
    return gpd.GeoDataFrame(geometry=[ps[0] if len(ps) == 1 else MultiPolygon(ps)], crs="EPSG:4326")


def check(c, ctx):
    times = TIMES[c["t"]]
    sat = Satellite(name="sat", orbit=orbit(ORBITS[c["o"]]), instruments=[i.model_copy() for i in INS])
    coord, out = list(OrbitCoordinate)[c["c"]], list(OrbitOutput)[c["u"]]
    opts = [(None, None)] + list(itertools.product(MASKS, FORMS))
    j = c["o"] + 3 * c["c"] + c["u"] + len(c["t"])
    if c["t"] == "many":
        opts = [o for o in opts if o[1] in (None, "shape") and o[0] in (None, "mid", "parts")]
    for k, (mn, form) in enumerate(opts):
        for ii, cs in (itertools.product(range(4), COLS) if c["all"] else [((j + k) % 4, COLS[(j + k // 2) % 5])] + ([((j + k + e) % 4, COLS[e]) for e in range(5)] if mn is None else [])):
            one(c, ctx, times, sat, coord, out, mn, form, ii, cs, [0, 1500.0, -30.0, 0][(ii + k) % 4])


def one(c, ctx, times, sat, coord, out, mn, form, ii, cs, el):
    ins = sat.instruments[ii]
    mask = None if mn is None else mask_of(mn, form)
    kw = {x: True for x in cs}
    args = list(times)
    if mask is not None:
        kw["mask"] = mask
    got = collect_orbit_track(sat, args, instrument_index=ii, elevation=el, coordinates=coord, orbit_output=out, **kw)
    ctx.step()
    what = {"orbit": ORBITS[c["o"]], "times": c["t"], "mask": (mn, form), "instrument": ii, "columns": cs, "coordinates": coord.value, "output": out.value}
    require(args == list(times), "the list of times was changed", **what)
    sts = [state(c["o"], t) for t in times]
    if mn is None:
        sel = list(range(len(times)))
    else:
        sel = []
        for i, s in enumerate(sts):
            p = SPoint(s["lon"], s["lat"])
            if min(g.boundary.distance(p) for g in MASKS[mn]) < 1e-6:
                ctx.skip()
                return
            if any(g.contains(p) for g in MASKS[mn]):
                sel.append(i)
    ctx.state((c["o"], c["t"], coord.value, out.value, mn, form, ii, cs))
    require(isinstance(got, gpd.GeoDataFrame) and len(got) == len(sel), "%d rows instead of %d" % (len(got), len(sel)), sig="rows", **what)
    require(list(got.index) == list(range(len(sel))), "index is not consecutive", sig="index", **what)
    if len(sel) > 400:
        sel_rows = list(enumerate(sel))[:20] + list(enumerate(sel))[20::37] + list(enumerate(sel))[-20:]
    else:
        sel_rows = list(enumerate(sel))
    for n in ("time", "satellite", "instrument", "swath_width", "valid_obs", "geometry"):
        require(n in got.columns, "column %s is missing" % n, **what)
    for r, i in sel_rows:
        s, row, t = sts[i], got.iloc[r], times[i]
        w = dict(what, row=r, time=str(t))
        require(abs((row["time"] - t).total_seconds()) < 1e-4, "row carries time %s instead of %s" % (row["time"], t), sig="time", **w)
        require(row["satellite"] == "sat" and row["instrument"] == ins.name, "labels %s %s" % (row["satellite"], row["instrument"]), sig="labels", **w)
        g = row["geometry"]
        if coord == OrbitCoordinate.WGS84:
            require(abs((g.x - s["lon"] + 180) % 360 - 180) * math.cos(math.radians(s["lat"])) < 1e-6 and abs(g.y - s["lat"]) < 1e-6 and abs(g.z - s["h"]) < 0.05, "position %s, expected (%.6f, %.6f, %.2f)" % (g.wkt, s["lon"], s["lat"], s["h"]), sig="position", **w)
        else:
            ref = s["ecef"] if coord == OrbitCoordinate.ECEF else s["eci"]
            require(np.abs(np.array(g.coords[0]) - ref).max() < 0.1, "position %s, expected %s" % (g.wkt, ref), sig="position", **w)
        if out == OrbitOutput.POSITION_VELOCITY:
            v = row["velocity"]
            ref = s["eciv"] if coord == OrbitCoordinate.ECI else s["ecefv"]
            require(np.abs(np.array(v.coords[0]) - ref).max() < 1e-3, "velocity %s, expected %s" % (v.wkt, ref), sig="velocity", **w)
        sw = 2 * (R + el) * lam_of_eta(s["h"], el, math.radians(min(180, ins.field_of_regard) / 2))
        require(abs(row["swath_width"] - sw) < 2.0 + 1e-6 * sw, "swath width %.1f, expected %.1f" % (row["swath_width"], sw), sig="swath", **w)
        lit, far = shadow(s)
        alt, az = sun_alt_az(s, s["h"])
        ok, amb = True, False
        if ins.req_self_sunlit is not None:
            ok = ok and lit == ins.req_self_sunlit
            amb = amb or far < 5e3
        if ins.req_target_sunlit is not None:
            ok = ok and (alt > 0) == ins.req_target_sunlit
            amb = amb or abs(alt) < 0.05
        if amb:
            ctx.skip()
        else:
            require(bool(row["valid_obs"]) == ok, "valid_obs %s, expected %s" % (row["valid_obs"], ok), sig="valid", **w)
        if "sat_sunlit" in cs:
            if far < 5e3:
                ctx.skip()
            else:
                require(bool(row["sat_sunlit"]) == lit, "sat_sunlit %s, expected %s" % (row["sat_sunlit"], lit), sig="sunlit", **w)
        if "solar_altaz" in cs:
            require(abs(row["solar_alt"] - alt) < 0.03, "solar altitude %.3f, expected %.3f" % (row["solar_alt"], alt), sig="solar_alt", **w)
            if abs(alt) < 88:
                require(abs((row["solar_az"] - az + 180) % 360 - 180) * math.cos(math.radians(alt)) < 0.03, "solar azimuth %.3f, expected %.3f" % (row["solar_az"], az), sig="solar_az", **w)
        if "solar_beta" in cs:
            nrm = np.cross(s["eci"], s["eciv"])
            be = 90 - math.degrees(math.acos(nrm @ s["suni"] / np.linalg.norm(nrm)))
            require(abs(row["solar_beta"] - be) < 0.03, "beta %.3f, expected %.3f" % (row["solar_beta"], be), sig="beta", **w)
    ctx.trace((c["o"], c["t"], mn, len(sel)))
