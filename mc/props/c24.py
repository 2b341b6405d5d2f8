"""C24: mission models survive serialization unchanged.

Reference model: a snapshot of a model is its class and the recursive snapshot
of its fields; what was given at construction must be what the snapshot holds,
and the snapshot must be the same after every round trip, as must be the
element sets, members and derived quantities computed from the object.
Declared bounds are listed here independently of the code.
"""
import copy
import itertools
import json
import math
from datetime import datetime, time, timedelta, timezone
from enum import Enum

from pydantic import BaseModel, ValidationError

from tatc.schemas import (Architecture, CircularOrbit, GroundStation, Instrument, KeplerianOrbit, MOGConstellation, MolniyaOrbit, Point,
                          PointedInstrument, Satellite, SOCConstellation, SunSynchronousOrbit, TrainConstellation, TundraOrbit, TwoLineElements,
                          WalkerConstellation)
from mc.core import require
from mc.common import T0, dt
from mc.orbits import ISS, NOAA20

TZ = timezone(timedelta(hours=5, minutes=30))
E1 = datetime(2021, 2, 28, 23, 59, 59, 123456, tzinfo=timezone.utc)
ORBITS = {
    "tle": (TwoLineElements, dict(tle=list(ISS))),
    "tle2": (TwoLineElements, dict(tle=list(NOAA20))),
    "circ": (CircularOrbit, dict(altitude=612000.5, true_anomaly=15.25, epoch=T0, inclination=97.9, right_ascension_ascending_node=359.999)),
    "circ0": (CircularOrbit, dict(altitude=400000)),
    "circe": (CircularOrbit, dict(altitude=500000, epoch=E1, inclination=179.5)),
    "circz": (CircularOrbit, dict(altitude=500000, epoch=T0.astimezone(TZ), inclination=30.0)),
    "kep": (KeplerianOrbit, dict(altitude=1500000, true_anomaly=200.0, epoch=T0, inclination=40.0, right_ascension_ascending_node=310.0, eccentricity=0.1, perigee_argument=60.0)),
    "kep0": (KeplerianOrbit, dict(altitude=700000, inclination=51.6)),
    "sso": (SunSynchronousOrbit, dict(altitude=705000, epoch=T0, equator_crossing_time=time(13, 30, 15, 250000), equator_crossing_ascending=False)),
    "sso0": (SunSynchronousOrbit, dict(altitude=800000, equator_crossing_time=time(0, 0), true_anomaly=359.5)),
    "moln": (MolniyaOrbit, dict(altitude=600000, epoch=T0, inclination=63.4, orbital_period=43000.5, perigee_argument=270.0, right_ascension_ascending_node=5.0, true_anomaly=10.0)),
    "tund": (TundraOrbit, dict(altitude=24000000, epoch=T0, eccentricity=0.3, right_ascension_ascending_node=77.0)),
    "moln0": (MolniyaOrbit, dict(altitude=600000)), "tund0": (TundraOrbit, dict(altitude=24000000)),
}
INSTR = {
    "def": (Instrument, {}),
    "plain": (Instrument, dict(name="n", field_of_regard=33.3, min_access_time=timedelta(seconds=7, microseconds=5), req_self_sunlit=False, access_time_fixed=True)),
    "plain2": (Instrument, dict(name="n", field_of_regard=360, req_self_sunlit=True, req_target_sunlit=False, min_access_time=timedelta(days=2, hours=3))),
    "point": (PointedInstrument, dict(name="p", cross_track_field_of_view=10.5, along_track_field_of_view=5.25, roll_angle=-30.0, pitch_angle=12.0, is_rectangular=True, cross_track_pixels=8, along_track_pixels=3, cross_track_oversampling=0.25, along_track_oversampling=0.5)),
    "point0": (PointedInstrument, dict(cross_track_field_of_view=1, along_track_field_of_view=1)),
    "point2": (PointedInstrument, dict(name="q", field_of_regard=60, min_access_time=timedelta(milliseconds=1), req_target_sunlit=True, cross_track_field_of_view=180, along_track_field_of_view=0.001)),
}
LISTS = [None, ["def"], ["plain"], ["point"], ["plain", "point"], ["point", "plain"], ["point2", "point"], ["plain2", "point0", "def"], ["point0", "point0"]]
SYSTEMS = {
    "sat": (Satellite, [dict(), dict(name="a b / \u00e9 \"q\"")], ["tle", "circ", "kep", "sso", "circ0", "circe", "circz", "kep0", "sso0", "tle2"]),
    "train": (TrainConstellation, [dict(interval=timedelta(minutes=10)), dict(interval=timedelta(seconds=-90.5), number_satellites=4, repeat_ground_track=False)], ["tle", "circ", "kep", "sso", "kep0", "sso0"]),
    "walker": (WalkerConstellation, [dict(), dict(configuration="star", number_satellites=6, number_planes=3, relative_spacing=2), dict(configuration="delta", number_satellites=4, number_planes=2, relative_spacing=1)], ["tle", "circ", "kep", "sso"]),
    "mog": (MOGConstellation, [dict(parallel_axis=1000.5, transverse_axis=500.0), dict(parallel_axis=10, transverse_axis=50, clockwise=False, number_satellites=5)], ["circ", "circ0", "circe"]),
    "soc": (SOCConstellation, [dict(swath_width=2e6, packing_distance=1.0), dict(swath_width=3e6, packing_distance=0.5)], ["circ", "circe"]),
}
STATIONS = [dict(name="g", latitude=-90.0, longitude=180.0, elevation=-12.5, min_elevation_angle=90.0, min_access_time=timedelta(seconds=1.5)), dict(name="h", latitude=1, longitude=2)]
POINTS = [dict(id=0, latitude=90, longitude=-180), dict(id=2 ** 40, latitude=-0.0, longitude=1e-12, elevation=8848.86)]
# class: {field: (low, low allowed, high, high allowed, integer)}
B = {
    "Instrument": {"field_of_regard": (0, False, 360, True, False)},
    "PointedInstrument": {"field_of_regard": (0, False, 360, True, False), "cross_track_field_of_view": (0, False, 180, True, False), "along_track_field_of_view": (0, False, 180, True, False),
                          "roll_angle": (-180, True, 180, True, False), "pitch_angle": (-180, True, 180, True, False), "cross_track_pixels": (1, True, None, None, True),
                          "along_track_pixels": (1, True, None, None, True), "cross_track_oversampling": (0, True, 1, False, False), "along_track_oversampling": (0, True, 1, False, False)},
    "Point": {"id": (0, True, None, None, True), "latitude": (-90, True, 90, True, False), "longitude": (-180, True, 180, True, False)},
    "GroundStation": {"latitude": (-90, True, 90, True, False), "longitude": (-180, True, 180, True, False), "min_elevation_angle": (0, True, 90, True, False)},
    "CircularOrbit": {"true_anomaly": (0, True, 360, False, False), "inclination": (0, True, 180, False, False), "right_ascension_ascending_node": (0, True, 360, False, False)},
    "KeplerianOrbit": {"true_anomaly": (0, True, 360, False, False), "inclination": (0, True, 180, False, False), "right_ascension_ascending_node": (0, True, 360, False, False), "eccentricity": (0, True, None, None, False), "perigee_argument": (0, True, 360, False, False)},
    "SunSynchronousOrbit": {"altitude": (0, True, None, None, False), "true_anomaly": (0, True, 360, False, False)},
    "MolniyaOrbit": {"true_anomaly": (0, True, 360, False, False), "inclination": (0, True, 180, False, False), "right_ascension_ascending_node": (0, True, 360, False, False), "orbital_period": (0, False, None, None, False), "perigee_argument": (0, True, 360, False, False)},
    "TundraOrbit": {"true_anomaly": (0, True, 360, False, False), "inclination": (0, True, 180, False, False), "right_ascension_ascending_node": (0, True, 360, False, False), "orbital_period": (0, False, None, None, False), "perigee_argument": (0, True, 360, False, False), "eccentricity": (0, True, None, None, False)},
    "TrainConstellation": {"number_satellites": (1, True, None, None, True)},
    "WalkerConstellation": {"number_satellites": (1, True, None, None, True), "number_planes": (1, True, None, None, True), "relative_spacing": (0, True, None, None, True)},
    "MOGConstellation": {"parallel_axis": (0, False, None, None, False), "transverse_axis": (0, False, None, None, False), "number_satellites": (1, True, None, None, True)},
    "SOCConstellation": {"swath_width": (0, False, None, None, False), "packing_distance": (0, False, 1, True, False)},
}
BOUNDS = {
    "quick": "14 orbits, 6 instruments, 5 space-system types x options x orbit type x 9 instrument lists (used and unused objects), architectures with every ordered pair of space systems and stations, points; 4 round trips each (JSON, dictionary, JSON-mode dictionary, nested); every bounded field of every class at, inside and outside its bounds, alone and nested; wrong types; all Walker parameter triples up to 5; default sharing",
    "thorough": "architectures with every ordered triple of space systems",
}
CHUNK = 4


def cases(tier):
    for o in ORBITS:
        yield {"k": "orbit", "o": o}
    for s in SYSTEMS:
        for o in SYSTEMS[s][2]:
            yield {"k": "system", "s": s, "o": o}
    n = 2 if tier == "quick" else 3
    for s in SYSTEMS:
        yield {"k": "arch", "s": s, "n": n}
    yield {"k": "small"}
    for c in B:
        yield {"k": "bounds", "c": c}
    yield {"k": "walker"}
    yield {"k": "shared"}
    yield {"k": "types"}


def snap(x):
    if isinstance(x, BaseModel):
        return (type(x).__name__, tuple((k, snap(getattr(x, k))) for k in sorted(type(x).model_fields)))
    if isinstance(x, (list, tuple)):
        return tuple(snap(v) for v in x)
    if isinstance(x, Enum):
        return x.value
    if isinstance(x, datetime):
        return ("t", x.astimezone(timezone.utc) if x.tzinfo else x)
    if isinstance(x, float) and x == int(x) if isinstance(x, float) and math.isfinite(x) else False:
        return float(x)
    return x


def behaviour(x):
    """Derived results that must not change."""
    out = []
    if isinstance(x, Instrument):
        out += [x.get_swath_width(6e5), x.get_min_elevation_angle(6e5)]
        if isinstance(x, PointedInstrument):
            out += [x.get_cross_track_instantaneous_field_of_view(), x.get_along_track_instantaneous_field_of_view()]
    elif isinstance(x, Satellite):
        ms = x.generate_members()
        out += [len(ms)]
        for m in ms[:12]:
            out += [m.name, tuple(m.orbit.to_tle(lazy_load=False).tle if not isinstance(m.orbit, TwoLineElements) else m.orbit.tle), snap(m.instruments)]
    elif isinstance(x, Architecture):
        out += [behaviour(s) for s in x.satellites]
    elif hasattr(x, "to_tle"):
        out += [tuple(x.to_tle().tle)]
    return out


def given(obj, args, what):
    """The object holds what it was given."""
    for k, v in args.items():
        a, b = snap(getattr(obj, k)), snap(v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            require(a == b, "%s is %r instead of the given %r" % (k, a, b), sig="given", **what)
        else:
            require(a == b, "%s is %r instead of the given %r" % (k, a, b), sig="given", **what)


def trips(obj, what, ctx, deep=True):
    cls = type(obj)
    ref, beh = snap(obj), behaviour(obj) if deep else None
    for n in range(4):
        if n == 0:
            new = cls.model_validate_json(obj.model_dump_json())
        elif n == 1:
            new = cls.model_validate(obj.model_dump())
        elif n == 2:
            new = cls.model_validate(json.loads(json.dumps(obj.model_dump(mode="json"))))
        else:
            new = cls(**obj.model_dump())
        ctx.step()
        w = dict(what, trip=["JSON", "dictionary", "JSON-mode dictionary", "keywords"][n])
        require(type(new) is cls, "reloaded as %s" % type(new).__name__, sig="type", **w)
        s = snap(new)
        require(s == ref, "reloaded object differs: %s" % diff(ref, s), sig="fields", **w)
        if deep:
            require(behaviour(new) == beh, "reloaded object behaves differently", sig="behaviour", **w)
        require(new.model_dump_json() == obj.model_dump_json(), "second serialization differs", sig="stable", **w)
    require(snap(obj) == ref, "serialization changed the object", sig="mutated", **what)
    ctx.trace((ref,))


def diff(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/" + (a[0] if isinstance(a[0], str) and i else str(i)))
    return "%s: %r -> %r" % (path, str(a)[:150], str(b)[:150])


def orbit(o):
    cls, kw = ORBITS[o]
    return cls(**copy.deepcopy(kw))


def instr(n):
    cls, kw = INSTR[n]
    return cls(**copy.deepcopy(kw))


def system(s, k, o, lst, used=False):
    cls, opts, _ = SYSTEMS[s]
    kw = dict(opts[k])
    kw.setdefault("name", "sys")
    ob = orbit(o)
    if used:
        use(ob)
    if lst is not None:
        kw["instruments"] = [instr(i) for i in lst]
    return cls(orbit=ob, **kw), kw


def use(ob):
    t = ob.to_tle()
    t.get_closest_tle_index(dt(0))
    t.get_repeat_cycle(max_search_duration=timedelta(hours=20))
    t.get_orbit_track(dt(100), try_repeat=False)


def check(c, ctx):
    globals()["_" + c["k"]](c, ctx)


def _orbit(c, ctx):
    for used in (False, True):
        o = orbit(c["o"])
        given(o, ORBITS[c["o"]][1], {"orbit": c["o"]})
        if used:
            use(o)
        ctx.state(("orbit", c["o"], used))
        trips(o, {"orbit": c["o"], "used": used}, ctx)
        d = copy.deepcopy(o)
        require(snap(d) == snap(o) and behaviour(d) == behaviour(o), "a deep copy differs", sig="deepcopy", orbit=c["o"])


def _system(c, ctx):
    for k in range(len(SYSTEMS[c["s"]][1])):
        for j, lst in enumerate(LISTS):
            for used in (False, True):
                s, kw = system(c["s"], k, c["o"], lst, used)
                what = {"system": c["s"], "options": k, "orbit": c["o"], "instruments": lst, "used": used}
                kw = dict(kw)
                kw["orbit"] = orbit(c["o"])
                given(s, kw, what)
                if lst is None:
                    require(snap(s.instruments) == snap([Instrument()]), "default instrument is %r" % s.instruments, sig="default", **what)
                ctx.state((c["s"], k, c["o"], j, used))
                trips(s, what, ctx, deep=(j in (3, 4) or not used))
                # a plain dictionary with the same content
                raw = {"name": kw["name"], "orbit": ORBITS[c["o"]][1], **{n: v for n, v in SYSTEMS[c["s"]][1][k].items()}}
                raw = copy.deepcopy(raw)
                raw["orbit"] = dict(raw["orbit"], type=type(s.orbit).model_fields["type"].default)
                if lst is not None:
                    raw["instruments"] = [copy.deepcopy(INSTR[i][1]) for i in lst]
                new = SYSTEMS[c["s"]][0].model_validate(raw)
                ctx.step()
                require(snap(new) == snap(s), "built from a dictionary: %s" % diff(snap(s), snap(new)), sig="dictionary", **what)


def _arch(c, ctx):
    names = list(SYSTEMS)
    for n in range(0, c["n"]):
        for rest in itertools.product(names, repeat=n):
            sys_, raw = [], []
            for i, s in enumerate((c["s"],) + rest):
                os_ = SYSTEMS[s][2]
                x, _ = system(s, (i + n) % len(SYSTEMS[s][1]), os_[(i * 3 + len(rest) + names.index(s)) % len(os_)], LISTS[(i * 2 + 3 + names.index(s)) % len(LISTS)], used=bool(i % 2))
                sys_.append(x)
            for st in ([], STATIONS[:1], STATIONS):
                kw = {"name": "arch", "satellites": sys_}
                if st:
                    kw["stations"] = [GroundStation(**g) for g in st]
                a = Architecture(**kw)
                what = {"systems": (c["s"],) + rest, "stations": len(st)}
                given(a, kw, what)
                ctx.state(("arch", c["s"], rest, len(st)))
                trips(a, what, ctx, deep=not st)


def _small(c, ctx):
    for cls, args in [(Point, a) for a in POINTS] + [(GroundStation, a) for a in STATIONS] + list(INSTR.values()):
        o = cls(**copy.deepcopy(args))
        given(o, args, {"class": cls.__name__})
        ctx.state((cls.__name__, str(args)))
        trips(o, {"class": cls.__name__, "args": args}, ctx)
    trips(Architecture(name="empty"), {"class": "Architecture"}, ctx)
    for fr in (0, 1, 1000, 999999, 10 ** 6, 61 * 10 ** 6, 86400 * 10 ** 6, 86400 * 10 ** 6 * 400 + 1):
        trips(Instrument(min_access_time=timedelta(microseconds=fr)), {"microseconds": fr}, ctx)
        trips(GroundStation(name="g", latitude=0, longitude=0, min_access_time=timedelta(microseconds=fr)), {"microseconds": fr}, ctx)


MIN = {
    "Instrument": (Instrument, {}), "PointedInstrument": (PointedInstrument, dict(cross_track_field_of_view=1, along_track_field_of_view=1)),
    "Point": (Point, dict(id=1, latitude=0, longitude=0)), "GroundStation": (GroundStation, dict(name="g", latitude=0, longitude=0)),
    "CircularOrbit": (CircularOrbit, dict(altitude=5e5)), "KeplerianOrbit": (KeplerianOrbit, dict(altitude=5e5)),
    "SunSynchronousOrbit": (SunSynchronousOrbit, dict(altitude=5e5, equator_crossing_time=time(1))), "MolniyaOrbit": (MolniyaOrbit, dict(altitude=5e5)), "TundraOrbit": (TundraOrbit, dict(altitude=5e5)),
    "TrainConstellation": (TrainConstellation, dict(name="t", orbit=CircularOrbit(altitude=5e5), interval=timedelta(1))),
    "WalkerConstellation": (WalkerConstellation, dict(name="t", orbit=CircularOrbit(altitude=5e5))),
    "MOGConstellation": (MOGConstellation, dict(name="t", orbit=CircularOrbit(altitude=5e5), parallel_axis=1, transverse_axis=1)),
    "SOCConstellation": (SOCConstellation, dict(name="t", orbit=CircularOrbit(altitude=5e5), swath_width=2e6, packing_distance=0.5)),
}


def attempt(cls, kw):
    try:
        return cls(**kw)
    except ValidationError:
        return None


def _bounds(c, ctx):
    cls, kw = MIN[c["c"]]
    for f, (lo, la, hi, ha, integer) in B[c["c"]].items():
        tests = []
        for b, ok, sg in ((lo, la, 1), (hi, ha, -1)):
            if b is None:
                continue
            if integer:
                tests += [(b, ok), (b + sg, True), (b - sg, False), (b - 100 * sg, False)]
            else:
                tests += [(float(b), ok), (b + sg * 1e-9, True), (math.nextafter(b, b + sg), True), (math.nextafter(b, b - sg), False), (b - sg * 1e-6, False), (b - sg * 1e6, False), (-sg * math.inf, False)]
        tests += [("abc", False), (None, False), ([], False), ({}, False)]
        if integer:
            tests += [(1.5, False)]
        for v, ok in tests:
            extra = {}
            if c["c"] == "WalkerConstellation":
                extra = {"number_planes": dict(number_satellites=9), "relative_spacing": dict(number_satellites=9, number_planes=9), "number_satellites": {}}[f]
            o = attempt(cls, dict(kw, **extra, **{f: v}))
            ctx.step()
            ctx.state((c["c"], f, repr(v)))
            what = {"class": c["c"], "field": f, "value": v}
            require((o is not None) == ok, "%s.%s = %r is %s" % (c["c"], f, v, "accepted" if o is not None else "rejected"), sig="bounds", **what)
            if o is not None:
                require(getattr(o, f) == v, "stored as %r" % getattr(o, f), sig="stored", **what)
            # nested in an enclosing model, as object data
            try:
                raw = dict(kw, **extra, **{f: v})
                if c["c"] in ("Instrument", "PointedInstrument"):
                    n = Satellite(name="s", orbit=CircularOrbit(altitude=5e5), instruments=[raw])
                    got = n.instruments[0]
                elif c["c"] in ("CircularOrbit", "KeplerianOrbit", "SunSynchronousOrbit"):
                    n = Satellite(name="s", orbit=dict(raw, type=cls.model_fields["type"].default))
                    got = n.orbit
                elif c["c"] == "GroundStation":
                    got = Architecture(name="a", stations=[raw]).stations[0]
                elif c["c"] == "Point" or "Orbit" in c["c"]:
                    continue
                else:
                    got = Architecture(name="a", satellites=[dict(raw, type=cls.model_fields["type"].default)]).satellites[0]
            except ValidationError:
                got = None
            ctx.step()
            if c["c"] == "PointedInstrument" and not ok and got is not None and type(got) is Instrument:
                continue  # the extra fields are unknown to a plain instrument
            require((got is not None) == ok and (got is None or type(got) is cls and getattr(got, f) == v), "nested %s.%s = %r is %s" % (c["c"], f, v, "rejected" if got is None else "loaded as %r" % got), sig="nested bounds", **what)
        ctx.trace((c["c"], f))


def _walker(c, ctx):
    for n, p, r in itertools.product(range(0, 6), range(0, 7), range(-1, 7)):
        ok = n >= 1 and 1 <= p <= n and 0 <= r < p
        o = attempt(WalkerConstellation, dict(name="w", orbit=CircularOrbit(altitude=5e5), number_satellites=n, number_planes=p, relative_spacing=r))
        ctx.step()
        ctx.state((n, p, r))
        require((o is not None) == ok, "number_satellites=%d number_planes=%d relative_spacing=%d is %s" % (n, p, r, "accepted" if o else "rejected"), sig="walker")
        ctx.trace((ok,))


def _shared(c, ctx):
    """Changing one object's defaults changes no other object."""
    makers = [lambda: Satellite(name="s", orbit=orbit("circ")), lambda: TrainConstellation(name="s", orbit=orbit("circ"), interval=timedelta(1)), lambda: WalkerConstellation(name="s", orbit=orbit("circ")),
              lambda: MOGConstellation(name="s", orbit=orbit("circ"), parallel_axis=1, transverse_axis=1), lambda: SOCConstellation(name="s", orbit=orbit("circ"), swath_width=2e6, packing_distance=0.5)]
    for (i, a), (j, b) in itertools.product(enumerate(makers), repeat=2):
        x, y = a(), b()
        ref = snap(y)
        x.instruments[0].field_of_regard = 1.0
        x.instruments[0].name = "changed"
        x.instruments.append(Instrument(name="more"))
        ctx.step(2)
        ctx.state(("shared", i, j))
        require(snap(y) == ref and snap(b()) == ref, "changing the default instrument of one object changes another", sig="shared", systems=(i, j))
        ctx.trace(("shared",))
    x, y = Architecture(name="x"), Architecture(name="y")
    x.satellites.append(makers[0]())
    x.stations.append(GroundStation(**STATIONS[0]))
    require(y.satellites == [] and y.stations == [] and Architecture(name="z").satellites == [] and Architecture(name="z").stations == [], "architectures share their default lists", sig="shared")
    # members share no instrument objects with each other
    for m in makers[1:]:
        s = m()
        if hasattr(s, "number_satellites"):
            s.number_satellites = 3
        ms = s.generate_members()
        if len(ms) > 1:
            ms[0].instruments[0].name = "changed"
            require(all(q.instruments[0].name != "changed" for q in ms[1:]) and s.instruments[0].name != "changed", "members share instrument objects", sig="shared")


def _types(c, ctx):
    """Type labels of other classes and missing required fields are rejected."""
    for a, b in itertools.permutations(ORBITS, 2):
        ca, cb = ORBITS[a][0], ORBITS[b][0]
        if ca is cb:
            continue
        ctx.step()
        ctx.state((a, b))
        require(attempt(ca, dict(ORBITS[a][1], type=cb.model_fields["type"].default)) is None, "%s accepts the type label of %s" % (ca.__name__, cb.__name__), sig="label")
        if a in ("tle", "circ", "kep", "sso") and b in ("tle", "circ", "kep", "sso"):
            s = attempt(Satellite, dict(name="s", orbit=dict(ORBITS[a][1], type=ca.model_fields["type"].default)))
            require(s is not None and type(s.orbit) is ca, "orbit data of type %s load as %s" % (a, s and type(s.orbit).__name__), sig="label")
    for s, t in itertools.permutations(SYSTEMS, 2):
        require(attempt(SYSTEMS[s][0], dict(name="s", orbit=orbit("circ"), type=SYSTEMS[t][0].model_fields["type"].default, **SYSTEMS[s][1][0])) is None, "%s accepts the type label of %s" % (s, t), sig="label")
        ctx.step()
    for cls, kw, req in [(Satellite, dict(name="s", orbit=orbit("circ")), ["name", "orbit"]), (MOGConstellation, MIN["MOGConstellation"][1], ["name", "orbit", "parallel_axis", "transverse_axis"]),
                         (SOCConstellation, MIN["SOCConstellation"][1], ["name", "orbit", "swath_width", "packing_distance"]), (TrainConstellation, MIN["TrainConstellation"][1], ["name", "orbit", "interval"]),
                         (PointedInstrument, MIN["PointedInstrument"][1], ["cross_track_field_of_view", "along_track_field_of_view"]), (Point, MIN["Point"][1], ["id", "latitude", "longitude"]),
                         (GroundStation, MIN["GroundStation"][1], ["name", "latitude", "longitude"]), (CircularOrbit, dict(altitude=1e5), ["altitude"]), (SunSynchronousOrbit, MIN["SunSynchronousOrbit"][1], ["altitude", "equator_crossing_time"]), (TwoLineElements, dict(tle=list(ISS)), ["tle"]), (Architecture, dict(name="a"), ["name"])]:
        for f in req:
            ctx.step()
            require(attempt(cls, {k: v for k, v in kw.items() if k != f}) is None, "%s is accepted without %s" % (cls.__name__, f), sig="required")
    require(attempt(Satellite, dict(name="s", orbit=orbit("circ"), instruments=[])) is None, "a satellite without instruments is accepted", sig="required")
    ctx.trace(("types",))
