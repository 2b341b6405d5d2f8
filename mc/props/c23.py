"""C23: analyses leave their inputs untouched and do not influence each other.

All ordered pairs (f, g) of the library's analysis, generation and geometry
calls are executed on one shared set of arguments: a process with pristine
module state runs f, spoils the result of f in place, and forks one process
per g, which runs g and then f again.  Every answer must equal the one given
in a process without any history and the arguments must stay as they were.
Every call is repeated with equal instants in other time zones, and with the
other forms (single/list, mask types) that the signatures allow.
"""
import pickle
from datetime import datetime, timedelta, timezone

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely.affinity import translate
from shapely.geometry import MultiPolygon, Polygon, box
from skyfield.api import wgs84
from zoneinfo import ZoneInfo

from tatc import config, utils
from tatc.analysis import (DopMethod, OrbitCoordinate, OrbitOutput, aggregate_observations, collect_downlinks,
                           collect_ground_pixels, collect_ground_track, collect_multi_observations,
                           collect_observations, collect_orbit_track, collect_ro_observations, compute_dop,
                           compute_ground_track, compute_latencies, grid_latencies, grid_observations,
                           reduce_latencies, reduce_observations)
from tatc.generation import (generate_equally_spaced_cells, generate_equally_spaced_points,
                             generate_fibonacci_lattice_points)
from tatc.schemas import (CircularOrbit, GroundStation, Instrument, KeplerianOrbit, MOGConstellation, Point,
                          PointedInstrument, Satellite, SOCConstellation, SunSynchronousOrbit, TrainConstellation,
                          TwoLineElements, WalkerConstellation)
from mc.canon import canon, same
from mc.common import frame_fingerprint
from mc.core import Violation
from mc.iso import ChildFailed, isolated
from mc.orbits import NOAA20

BOUNDS = {
    "quick": "all ordered pairs of about 59 calls (f, spoil, g, f) on shared arguments; each call under 4 further time zones (one mixed); all equivalent argument forms; every call after all calls on 5 sets of other arguments that carry the same names and identifiers (other orbits, places, times, instruments, values that differ by little)",
    "thorough": "additionally all ordered triples (f, g, h) over the 18 calls that share frames, masks or space systems",
}
ASSUMPTIONS = ["memoized element sets (to_tle) and a satellite returned as its own member are shared by design and not spoiled",
               "lazily stored values inside an orbit are not counted as a change of the argument (its fields are)"]
VALIDATION = "every call sequence is executed on the real functions in forked processes; results are compared with those of a process without history"
CHUNK = 1
UTC = timezone.utc
E0 = datetime(2022, 6, 1, tzinfo=UTC)
ZONES = {"utc": UTC, "ist": timezone(timedelta(hours=5, minutes=30)), "pst": timezone(timedelta(hours=-8)), "ny": ZoneInfo("America/New_York")}
_FR = {}


def when(sec, zone, i=0):
    if zone == "mixed":
        zone = ("utc", "ist", "pst")[i % 3]
    return (E0 + timedelta(seconds=sec)).astimezone(ZONES[zone])


TWINS = ("orb", "place", "time", "inst", "fine")


def swap_columns(line, a, b, text):
    """A line of an element set with other text in columns a..b and the right checksum."""
    line = line[:a] + text.rjust(b - a) + line[b:68]
    return line + str(sum(int(c) if c.isdigit() else c == "-" for c in line) % 10)


def world(zone="utc", twin=None):
    """All arguments; rebuilt identically on every call.

    twin: other values under the same names and identifiers ("fine": values that
    differ by little)."""
    if twin:
        return twin_of(world(zone), twin)
    ep = when(0, zone, 1)
    circ = CircularOrbit(altitude=572000, inclination=98.2, right_ascension_ascending_node=20.0, true_anomaly=10.0, epoch=ep)
    inst = [Instrument(name="I", field_of_regard=100.0), Instrument(name="J", field_of_regard=50.0, min_access_time=timedelta(seconds=30))]
    point_inst = PointedInstrument(name="P", field_of_regard=120.0, cross_track_field_of_view=30.0, along_track_field_of_view=20.0, roll_angle=15.0,
                                   pitch_angle=-5.0, is_rectangular=True, cross_track_pixels=4, along_track_pixels=3)
    w = {
        "sat": Satellite(name="A", orbit=circ, instruments=inst),
        "satp": Satellite(name="B", orbit=circ, instruments=[point_inst, inst[0]]),
        "satt": Satellite(name="C", orbit=TwoLineElements(tle=list(NOAA20)), instruments=[inst[0]]),
        "sso": SunSynchronousOrbit(altitude=700000, equator_crossing_time=datetime(2020, 1, 1, 10, 30).time(), epoch=ep),
        "walker": WalkerConstellation(name="W", orbit=circ, instruments=inst, number_satellites=4, number_planes=2, relative_spacing=1),
        "train": TrainConstellation(name="T", orbit=circ, instruments=inst, number_satellites=3, interval=timedelta(minutes=7)),
        "mog": MOGConstellation(name="M", orbit=circ, instruments=inst, number_satellites=3, parallel_axis=100000, transverse_axis=50000),
        "soc": SOCConstellation(name="S", orbit=CircularOrbit(altitude=3000000, inclination=80.0, epoch=ep), instruments=inst, swath_width=6000000, packing_distance=0.8),
        "gps": [Satellite(name="G%d" % i, orbit=CircularOrbit(altitude=20180000, inclination=55.0, right_ascension_ascending_node=60.0 * (i % 6),
                          true_anomaly=(47.0 * i) % 360, epoch=ep), instruments=[Instrument(name="N")]) for i in range(12)],
        "pt": Point(id=4, latitude=12.0, longitude=20.0, elevation=100.0),
        "pts": [Point(id=4, latitude=12.0, longitude=20.0), Point(id=5, latitude=-40.0, longitude=170.0)],
        "gs": [GroundStation(name="K", latitude=60.0, longitude=10.0, min_elevation_angle=10.0, min_access_time=timedelta(seconds=60)),
               GroundStation(name="L", latitude=-30.0, longitude=-70.0, min_elevation_angle=5.0)],
        "start": when(7200, zone, 0), "end": when(7200 + 86400, zone, 2),
        "times": [when(60.0 * i, zone, i) for i in range(40, 52)],
        "utimes": [when(60.0 * i, zone, i) for i in (51, 40, 44, 42, 49)],
        "rotimes": [when(40.0 * i, zone, i) for i in range(60)],
        "poly": Polygon([(-20, -50), (60, -50), (60, 70), (-20, 70)], [[(0, 0), (10, 0), (10, 10), (0, 10)]]),
        "anti": Polygon([(170, -20), (190, -20), (190, 40), (170, 40)]),
        "multi": MultiPolygon([box(-20, -50, 20, 70), box(30, -50, 60, 70)]),
        "series": gpd.GeoSeries([box(-20, -50, 20, 70), box(30, -50, 60, 70)], index=[7, 3], crs="EPSG:4326"),
        "gdf": gpd.GeoDataFrame({"q": [1, 2], "geometry": [box(-20, -50, 20, 70), box(30, -50, 60, 70)]}, index=[5, 9], crs="EPSG:4326"),
        "cells": gpd.GeoDataFrame({"cell_id": [3, 8, 1], "geometry": [box(0, 0, 40, 40), box(150, -60, 180, -20), box(-90, 0, -80, 10)]}, index=[4, 2, 7], crs="EPSG:4326"),
    }
    for k, v in _FR.items():
        f = pickle.loads(v)
        if zone != "utc":
            z = ZONES["ist" if zone == "mixed" else zone]
            for c in f.columns:
                if isinstance(f[c].dtype, pd.DatetimeTZDtype):
                    f[c] = f[c].dt.tz_convert(z)
        w[k] = f
    return w


def twin_of(w, t):
    fine = t == "fine"
    mv = translate

    def orb(o, k):
        if isinstance(o, TwoLineElements):
            return TwoLineElements(tle=[swap_columns(o.tle[0], 53, 61, "21212-4" if fine else "99208-3"), o.tle[1]])
        kw = {"altitude": o.altitude + (0.4 if fine else 43000.0)}
        if hasattr(o, "right_ascension_ascending_node"):
            kw["right_ascension_ascending_node"] = o.right_ascension_ascending_node + (0.004 if fine else 7.0 + k)
        return type(o)(**dict(o.model_dump(), **kw))
    if t in ("orb", "fine"):
        for k in ("sat", "satp", "satt", "walker", "train", "mog", "soc"):
            w[k] = w[k].model_copy(update={"orbit": orb(w[k].orbit, 0)})
        w["gps"] = [g.model_copy(update={"orbit": orb(g.orbit, i)}) for i, g in enumerate(w["gps"])]
        w["sso"] = orb(w["sso"], 0)
    if t in ("place", "fine"):
        d = 0.004 if fine else 31.0
        pt = lambda p: Point(id=p.id, latitude=p.latitude - d, longitude=p.longitude - d, elevation=p.elevation + d)
        w["pt"], w["pts"] = pt(w["pt"]), [pt(p) for p in w["pts"]]
        w["gs"] = [GroundStation(**dict(g.model_dump(), latitude=g.latitude - d, longitude=g.longitude - d)) for g in w["gs"]]
        for k in ("poly", "anti", "multi"):
            w[k] = mv(w[k], -d)
        w["series"] = w["series"].translate(-d)
        for k in ("gdf", "cells"):
            w[k] = w[k].set_geometry(w[k].geometry.translate(-d))
        w["cells"] = w["cells"].set_geometry(w["cells"].geometry.translate(d / 2))
        for k in list(w):
            if k.startswith("f_"):
                w[k] = w[k].set_geometry(w[k].geometry.translate(d / 3))
    if t in ("time", "fine"):
        d = timedelta(seconds=0.3 if fine else 4000.0)
        for k in ("start", "end"):
            w[k] = w[k] + d
        for k in ("times", "utimes", "rotimes"):
            w[k] = [x + d for x in w[k]]
        for k in list(w):
            if k.startswith("f_"):
                f = w[k].copy()
                for c in f.columns:
                    if isinstance(f[c].dtype, pd.DatetimeTZDtype):
                        f[c] = f[c] + d
                    elif f[c].dtype.kind == "m":
                        f[c] = f[c] + d
                w[k] = f
    if t in ("inst", "fine"):
        def ins(i):
            kw = {"field_of_regard": i.field_of_regard + (0.04 if fine else 11.0), "min_access_time": i.min_access_time + timedelta(seconds=0.4 if fine else 40)}
            if isinstance(i, PointedInstrument):
                kw.update(roll_angle=i.roll_angle + (0.04 if fine else -9.0), cross_track_field_of_view=i.cross_track_field_of_view + (0.04 if fine else 6.0),
                          cross_track_pixels=i.cross_track_pixels + (not fine))
            return type(i)(**dict(i.model_dump(), **kw))
        for k in ("sat", "satp", "satt", "walker", "train", "mog", "soc"):
            w[k] = w[k].model_copy(update={"instruments": [ins(i) for i in w[k].instruments]})
        x = 1.00001 if fine else 1.2
        w["train"].interval *= x
        w["mog"].parallel_axis *= x
        w["soc"].swath_width *= x
        if not fine:
            w["walker"].relative_spacing = 0
    return w


def twins_first(t, gs):
    """Every call on the twin arguments, then each call on the real ones."""
    v = world(twin=t)
    for c in CALLS.values():
        c(v)
    w = world()
    return [(g, isolated(lambda: canon(CALLS[g](w)))) for g in gs]


def check_twin(case, ctx):
    t = case["t"]
    gs = case["gs"]
    for g, r in isolated(twins_first, t, gs):
        ctx.step()
        compare(g, r, ctx, "after all calls on other arguments of the same names (%s)" % t, "twin", {"k": "twin", "t": t, "gs": [g]})
        ctx.state(["twin", t, g])
        ctx.trace(["twin", t, g])
    ctx.step(len(CALLS))


def geo(o, t):
    return o.to_tle().get_orbit_track(t)


CALLS = {
    "obs": lambda w: collect_observations(w["pt"], w["sat"], w["start"], w["end"]),
    "obs1": lambda w: collect_observations(w["pt"], w["sat"], w["start"], w["end"], instrument_index=1, omit_solar=False),
    "obsp": lambda w: collect_observations(w["pt"], w["satp"], w["start"], w["end"]),
    "multi": lambda w: collect_multi_observations(w["pt"], [w["walker"], w["sat"]], w["start"], w["end"]),
    "multi1": lambda w: collect_multi_observations(w["pt"], w["train"], w["start"], w["end"], omit_solar=False),
    "agg": lambda w: aggregate_observations(w["f_obs"]),
    "red": lambda w: reduce_observations(w["f_agg"]),
    "grid": lambda w: grid_observations(w["f_red"], w["cells"]),
    "grid0": lambda w: grid_observations(w["f_red"].iloc[:0], w["cells"]),
    "dl": lambda w: collect_downlinks(w["gs"], w["sat"], w["start"], w["end"]),
    "lat": lambda w: compute_latencies(w["f_obs"], w["f_dl"]),
    "rlat": lambda w: reduce_latencies(w["f_lat"]),
    "glat": lambda w: grid_latencies(w["f_rlat"], w["cells"]),
    "glat0": lambda w: grid_latencies(w["f_rlat"].iloc[:0], w["cells"]),
    "dop": lambda w: compute_dop(w["times"], w["pt"], w["gps"], 5.0, DopMethod.GDOP),
    "dopp": lambda w: compute_dop(w["times"], w["pt"], w["gps"], 5.0, DopMethod.PDOP, 5),
    "dopu": lambda w: compute_dop(w["utimes"], w["pt"], w["gps"][::-1], 5.0, DopMethod.TDOP),
    "trku": lambda w: [collect_orbit_track(w["sat"], w["utimes"]), collect_orbit_track(w["satt"], w["utimes"], coordinates=OrbitCoordinate.ECI)],
    "gtu": lambda w: collect_ground_track(w["sat"], w["utimes"], crs="spice"),
    "pxu": lambda w: collect_ground_pixels(w["satp"], w["utimes"][:3]),
    "ro": lambda w: collect_ro_observations(w["sat"], w["gps"], w["rotimes"]),
    "trk": lambda w: collect_orbit_track(w["sat"], w["times"]),
    "trkm": lambda w: collect_orbit_track(w["sat"], w["times"], mask=w["gdf"], coordinates=OrbitCoordinate.ECEF, orbit_output=OrbitOutput.POSITION_VELOCITY),
    "trks": lambda w: collect_orbit_track(w["satp"], w["times"], elevation=500.0, sat_sunlit=True, solar_altaz=True, solar_beta=True),
    "gt": lambda w: collect_ground_track(w["sat"], w["times"]),
    "gtm": lambda w: collect_ground_track(w["sat"], w["times"], mask=w["poly"], crs="utm"),
    "gts": lambda w: collect_ground_track(w["satp"], w["times"], mask=w["series"], crs="spice", sat_altaz=True, solar_altaz=True),
    "cgt": lambda w: compute_ground_track(w["sat"], w["times"], crs="EPSG:4087", method="point"),
    "cgl": lambda w: compute_ground_track(w["sat"], w["times"], mask=w["multi"], method="line"),
    "cgs": lambda w: compute_ground_track(w["satp"], w["times"], crs="spice", dissolve_orbits=False),
    "px": lambda w: collect_ground_pixels(w["satp"], w["times"][:4]),
    "pxm": lambda w: collect_ground_pixels(w["satp"], w["times"][:4], mask=w["multi"], sat_altaz=True),
    "cells": lambda w: generate_equally_spaced_cells(4000000, elevation=10.0),
    "cellsm": lambda w: generate_equally_spaced_cells(2000000, mask=w["poly"]),
    "cellss": lambda w: generate_equally_spaced_cells(3000000, mask=w["multi"], strips="lat"),
    "eq": lambda w: generate_equally_spaced_points(4000000, elevation=10.0),
    "eqm": lambda w: generate_equally_spaced_points(2000000, mask=w["anti"]),
    "fib": lambda w: generate_fibonacci_lattice_points(4000000),
    "fibm": lambda w: generate_fibonacci_lattice_points(2000000, elevation=10.0, mask=w["multi"]),
    "split": lambda w: utils.split_polygon(w["anti"]),
    "splitm": lambda w: utils.split_polygon(MultiPolygon([w["anti"], w["poly"]])),
    "norm": lambda w: utils.normalize_geometry(w["anti"]),
    "normg": lambda w: utils.normalize_geometry(w["gdf"]),
    "norms": lambda w: utils.normalize_geometry(w["series"]),
    "proj": lambda w: utils.project_polygon_to_elevation(w["poly"], 100.0),
    "buf": lambda w: utils.buffer_target(w["poly"], 500000.0, 51.0, 50.0, 30.0),
    "walker": lambda w: w["walker"].generate_members(),
    "train": lambda w: w["train"].generate_members(),
    "mog": lambda w: w["mog"].generate_members(),
    "soc": lambda w: w["soc"].generate_members(),
    "member": lambda w: w["sat"].generate_members(),
    "tle": lambda w: [w["sat"].orbit.to_tle(), w["sso"].to_tle(), w["satt"].orbit.to_tle()],
    "derive": lambda w: [w["sat"].orbit.get_derived_orbit(20.0, 30.0), w["sso"].get_derived_orbit(1.0, 2.0), w["satt"].orbit.get_derived_orbit(3.0, 4.0)],
    "pv": lambda w: [geo(w["sat"].orbit, w["times"]).position.m, geo(w["satt"].orbit, w["times"][0]).velocity.m_per_s],
    "rep": lambda w: w["sat"].orbit.to_tle().get_repeat_cycle(),
    "foot": lambda w: [w["satp"].instruments[0].compute_footprint(geo(w["satp"].orbit, w["times"][0])), w["sat"].instruments[0].compute_footprint(geo(w["sat"].orbit, w["times"][1]), number_points=8)],
    "footc": lambda w: [(g.longitude.degrees, g.latitude.degrees) for g in [w["satp"].instruments[0].compute_footprint_center(geo(w["satp"].orbit, w["times"][0]))]],
    "limb": lambda w: utils.compute_limb(geo(w["sat"].orbit, w["times"][2])),
    "valid": lambda w: np.asarray(w["satp"].instruments[0].is_valid_observation(geo(w["sat"].orbit, w["times"]), wgs84.latlon(12.0, 20.0))),
    "part": lambda w: [w["satt"].orbit.partition_by_tle_index(w["start"], w["end"]), w["satt"].orbit.get_closest_tle_index(w["times"])],
}
KEEP = {"member", "tle"}  # results that are the argument or its memoized element set
TIMED = [c for c in CALLS if c not in ("grid", "grid0", "rlat", "glat", "glat0", "cells", "cellsm", "cellss", "eq", "eqm", "fib", "fibm", "split", "splitm", "norm",
                                       "normg", "norms", "proj", "buf")]
CORE = ["obs", "multi", "agg", "red", "grid", "lat", "trkm", "gtm", "gts", "cgl", "pxm", "fibm", "cellsm", "splitm", "normg", "walker", "tle", "foot"]

MASKS = {"multi": lambda w: w["multi"], "series": lambda w: w["series"], "gdf": lambda w: w["gdf"]}
FORMS = {
    "multi-single/list": [lambda w: collect_multi_observations(w["pt"], w["train"], w["start"], w["end"]),
                          lambda w: collect_multi_observations(w["pt"], [w["train"]], w["start"], w["end"]),
                          lambda w: collect_multi_observations(w["pt"], w["train"].generate_members(), w["start"], w["end"])],
    "downlinks-single/list": [lambda w: collect_downlinks(w["gs"][0], w["sat"], w["start"], w["end"]),
                              lambda w: collect_downlinks([w["gs"][0]], w["sat"], w["start"], w["end"])],
    "ro-single/list": [lambda w: collect_ro_observations(w["sat"], w["gps"][3], w["rotimes"]),
                       lambda w: collect_ro_observations(w["sat"], [w["gps"][3]], w["rotimes"])],
    "track-masks": [lambda w, m=m: collect_orbit_track(w["sat"], w["times"], mask=m(w)) for m in MASKS.values()],
    "pixel-masks": [lambda w, m=m: collect_ground_pixels(w["satp"], w["times"][:4], mask=m(w)) for m in MASKS.values()],
    "ground-masks": [lambda w, m=m: [g.area for g in collect_ground_track(w["sat"], w["times"], mask=m(w)).geometry] for m in MASKS.values()],
    "index": [lambda w: w["satt"].orbit.get_closest_tle_index(w["times"]),
              lambda w: [w["satt"].orbit.get_closest_tle_index(t) for t in w["times"]]],
    "positions": [lambda w: geo(w["satt"].orbit, w["times"]).position.m,
                  lambda w: np.array([geo(w["satt"].orbit, t).position.m for t in w["times"]]).T],
    "footprints": [lambda w: list(w["satp"].instruments[0].compute_footprint(geo(w["sat"].orbit, w["times"]))),
                   lambda w: [w["satp"].instruments[0].compute_footprint(geo(w["sat"].orbit, t)) for t in w["times"]]],
    "limbs": [lambda w: [(g.area, g.bounds) for g in utils.compute_limb(geo(w["sat"].orbit, w["times"]))],
              lambda w: [(g.area, g.bounds) for g in [utils.compute_limb(geo(w["sat"].orbit, t)) for t in w["times"]]]],
}


# ---- fingerprints and spoiling -------------------------------------------
def print_of(v):
    if isinstance(v, pd.DataFrame):
        return (frame_fingerprint(v), str(v.attrs), str(v.index.name))
    if isinstance(v, pd.Series):
        return (tuple(map(str, v.index)), tuple(g.wkt if hasattr(g, "wkt") else str(g) for g in v), str(getattr(v, "crs", None)))
    if isinstance(v, list):
        return tuple(print_of(i) for i in v)
    if hasattr(v, "model_dump"):
        return (type(v).__name__, repr(v.model_dump()), repr(v))
    if hasattr(v, "wkt"):
        return v.wkt
    return repr(v)


def prints(w):
    return dict({k: print_of(v) for k, v in w.items()}, _config=repr(config.rc.model_dump()))


def spoil(r):
    """Damage a result in place as thoroughly as its type allows."""
    if isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
        if isinstance(r, list):
            del r[:]
    elif isinstance(r, (pd.DataFrame, pd.Series)):
        cols = list(r.columns) if isinstance(r, pd.DataFrame) else [None]
        for c in cols:
            a = r[c] if c is not None else r
            try:
                v = a.values
                v[...] = v[::-1].copy() if len(v) > 1 else v
            except Exception:
                pass
            try:
                x = a.to_numpy()
                if x.dtype.kind in "fi":
                    x[:] = 7
            except Exception:
                pass
        if isinstance(r, pd.DataFrame):
            try:
                for c in cols:
                    if c != "geometry":
                        r.drop(columns=c, inplace=True)
                r["spoiled"] = 1
                r.drop(r.index, inplace=True)
            except Exception:
                pass
    elif isinstance(r, np.ndarray):
        try:
            r[...] = 7
        except Exception:
            pass
    elif hasattr(r, "model_dump"):
        for k in list(type(r).model_fields):
            v = getattr(r, k)
            if k == "orbit":
                spoil(v)
            elif k == "instruments":
                for i in v:
                    i.name, i.field_of_regard = "spoiled", 1.0
                del v[1:]
            elif isinstance(v, float):
                setattr(r, k, 1.0)
            elif isinstance(v, str) and k == "name":
                setattr(r, k, "spoiled")


def changed(p, q):
    return [k for k in p if p[k] != q.get(k)]


def pair(f, gs):
    w = world()
    p0 = prints(w)
    r = CALLS[f](w)
    first = canon(r)
    bad = changed(p0, prints(w))
    if bad:
        return [("changes its argument %s" % bad, [f])], 1
    if f not in KEEP:
        spoil(r)
        bad = changed(p0, prints(w))
        if bad:
            return [("returns a result that shares mutable state with its argument %s" % bad, [f])], 1
    out = [("first", f, first)]
    n = 1
    for g in gs:
        out.append(("pair", g, isolated(second, w, p0, f, g)))
        n += 2
    return out, n


def second(w, p0, f, g):
    if isinstance(g, str):
        g = [g]
    res = []
    for x in g + [f]:
        res.append((x, canon(CALLS[x](w))))
        bad = changed(p0, prints(w))
        if bad:
            return ("args", x, bad)
    return ("ok", res)


_REF = {}


def ref(c):
    if c not in _REF:
        _REF[c] = isolated(lambda: canon(CALLS[c](world())))
    return _REF[c]


def frames():
    w = world()
    setup()
    obs = pd.concat([collect_multi_observations(p, [w["sat"], w["walker"]], w["start"], w["end"]) for p in w["pts"]])
    obs.index = range(len(obs) + 10, 10, -1)
    obs = obs.iloc[[(7 * i) % len(obs) if len(obs) % 7 else i for i in range(len(obs))]]
    agg = aggregate_observations(obs)
    red = reduce_observations(agg)
    dl = collect_downlinks(w["gs"], w["sat"], w["start"], w["end"])
    lat = compute_latencies(obs, dl)
    return {"f_obs": pickle.dumps(obs), "f_agg": pickle.dumps(agg), "f_red": pickle.dumps(red), "f_dl": pickle.dumps(dl),
            "f_lat": pickle.dumps(lat), "f_rlat": pickle.dumps(reduce_latencies(lat))}


def setup():
    config.rc.repeat_cycle_search_duration_days = 1.6


def warm():
    setup()
    # compile what every child would compile, on inputs of no case
    utils.compute_orbit_period(1.0e6), utils.field_of_regard_to_swath_width(1.0e6, 3.0), utils.compute_min_elevation_angle(1.0e6, 3.0)
    utils.swath_width_to_field_of_regard(1.0e6, 3.0e5), utils.compute_field_of_regard(1.0e6, 30.0), utils.compute_ground_velocity(1.0e6, 30.0)
    utils.mean_anomaly_to_true_anomaly(3.0), utils.mean_anomaly_to_true_anomaly(3.0, 0.1), utils.true_anomaly_to_mean_anomaly(3.0), utils.true_anomaly_to_mean_anomaly(3.0, 0.1)
    utils.mean_anomaly_to_true_anomaly(3.0, eccentricity=0.1)
    generate_equally_spaced_points(9000000), generate_fibonacci_lattice_points(9000000), generate_equally_spaced_cells(9000000)
    generate_fibonacci_lattice_points(9000000, mask=box(1, 2, 33, 44))
    o = CircularOrbit(altitude=777000, inclination=61.0, epoch=E0 + timedelta(days=99))
    t = o.to_tle()
    t.get_orbit_track(E0 + timedelta(days=99)).position.m
    _FR.clear()
    try:
        _FR.update(isolated(frames))
    except ChildFailed as e:
        raise RuntimeError("building the shared frames failed: %s" % e)


def cases(tier):
    names = list(CALLS)
    out = [{"k": "pair", "f": f} for f in names]
    out += [{"k": "zone", "f": f} for f in TIMED]
    out += [{"k": "form", "f": f} for f in FORMS]
    out += [{"k": "twin", "t": t, "gs": names[i::4]} for t in TWINS for i in range(4)]
    if tier != "quick":
        out += [{"k": "triple", "f": f, "g": g} for f in CORE for g in CORE]
    return out


def compare(c, got, ctx, what, sig, case):
    d = same(got, ref(c))
    if d:
        raise Violation("%s: %s differs from the result of a process without history: %s" % (what, c, d), sig, case)


def check_pair(case, ctx):
    f = case["f"]
    gs = [case["g"]] if case.get("g") else list(CALLS)
    if case["k"] == "triple":
        gs = [[case["g"], h] for h in ([case["h"]] if case.get("h") else CORE)]
    out, n = isolated(pair, f, gs)
    ctx.step(n)
    if out[0][0] != "first":
        raise Violation("%s %s" % (f, out[0][0]), "inputs", {"k": "pair", "f": f, "g": f})
    compare(f, out[0][2], ctx, "first call", "repeat", case)
    for _, g, r in out[1:]:
        one = {"k": case["k"], "f": f, "g": g} if isinstance(g, str) else {"k": "triple", "f": f, "g": g[0], "h": g[1]}
        if r[0] == "args":
            raise Violation("%s (after %s) changes its argument %s" % (r[1], f, r[2]), "inputs", one)
        for i, (c, got) in enumerate(r[1]):
            compare(c, got, ctx, "after %s" % ", ".join([f] + [x for x, _ in r[1][:i]]), "influence", one)
        ctx.state([f, g])
        ctx.trace([f, g], {"sequence": [f] + [x for x, _ in r[1]]})


def in_zone(f, zone):
    w = world(zone)
    p0 = prints(w)
    r = canon(CALLS[f](w))
    return r, changed(p0, prints(w))


def check_zone(case, ctx):
    f = case["f"]
    for z in ([case["z"]] if case.get("z") else ["ist", "pst", "ny", "mixed"]):
        got, bad = isolated(in_zone, f, z)
        ctx.step()
        one = {"k": "zone", "f": f, "z": z}
        if bad:
            raise Violation("%s with times in zone %s changes its argument %s" % (f, z, bad), "inputs", one)
        d = same(got, ref(f))
        if d:
            raise Violation("%s differs when the same instants are given in time zone %s: %s" % (f, z, d), "zone", one)
        ctx.state(["zone", f, z])
        ctx.trace(["zone", f, z])


def check_form(case, ctx):
    rs = [isolated(lambda c=c: canon(c(world()))) for c in FORMS[case["f"]]]
    ctx.step(len(rs))
    for i, r in enumerate(rs[1:]):
        d = same(r, rs[0], ab=1e-5)
        if d:
            raise Violation("%s: form %d differs from form 0: %s" % (case["f"], i + 1, d), "forms:%s" % case["f"])
    ctx.state(["form", case["f"]])
    ctx.trace(["form", case["f"], rs[0]])


def check(case, ctx):
    try:
        {"pair": check_pair, "triple": check_pair, "zone": check_zone, "form": check_form, "twin": check_twin}[case["k"]](case, ctx)
    except ChildFailed as e:
        raise Violation("a legal call sequence failed: %s" % e, "exception")
