"""C19: closed-form viewing-geometry conversions.

Reference model: planar vector geometry of a satellite S at distance R+h and a
ground point P at central angle lambda on the sphere of radius R+el.  The
nadir angle at S and the elevation at P come from dot products of the explicit
vectors, never from the closed forms used by the library.
"""
import itertools
import math
from datetime import timedelta

from tatc import utils as U
from tatc.schemas import Instrument, PointedInstrument, GroundStation, CircularOrbit, SunSynchronousOrbit
from mc.core import require

A, B = 6378137.0, 6356752.314245179
R = (2 * A + B) / 3
MU = 3.986004418e14
SID = 86164.0905
E2 = 1 - (B / A) ** 2
AREA = 2 * math.pi * A * A + math.pi * B * B / math.sqrt(E2) * math.log((1 + math.sqrt(E2)) / (1 - math.sqrt(E2)))

BOUNDS = {
    "quick": "12 altitudes (100 km..geostationary, integer and float) x 5 elevations x 41 central angles from nadir to the horizon x 8 half swaths; fields of regard 0.01..360 (150 values); inclinations 0..180 step 5 x 12 altitudes x 4 distances; 60 sample distances; elevation angles 0..90 step 1",
    "thorough": "40 altitudes x 9 elevations x 201 central angles x 20 half swaths; inclinations step 1; fields of regard 1500 values; 600 sample distances",
}
CHUNK = 2
ALT = [100000, 200000.0, 408000, 567000.0, 705000, 1000000.0, 2000000, 8000000.0, 20180000, 35786000.0, 35793170, 60000000.0]
ELE = [0, 0.0, 500.0, 8848, -430.0]


def cases(tier):
    q = tier == "quick"
    alts = ALT if q else ALT + [100000.0 * 1.17 ** k for k in range(1, 29)]
    for a in alts:
        yield {"k": "view", "h": a, "els": ELE if q else ELE + [1.0, 4000.0, 20000.0, -10.0], "n": 41 if q else 201, "m": 8 if q else 20}
        yield {"k": "for", "h": a, "n": 150 if q else 1500}
        yield {"k": "speed", "h": a, "di": 5 if q else 1}
    yield {"k": "samples", "n": 60 if q else 600}


def geom(h, el, lam):
    """(nadir angle at the satellite, elevation angle at the point), radians."""
    s = (R + h, 0.0)
    p = ((R + el) * math.cos(lam), (R + el) * math.sin(lam))
    d = (p[0] - s[0], p[1] - s[1])
    eta = math.atan2(d[1], -d[0])
    up = (math.cos(lam), math.sin(lam))
    east = (-math.sin(lam), math.cos(lam))
    eps = math.atan2(-(d[0] * up[0] + d[1] * up[1]), abs(d[0] * east[0] + d[1] * east[1]))
    return eta, eps


def lam_of_eta(h, el, eta):
    """Central angle of the point seen at nadir angle eta (bisection), saturating at the horizon."""
    hi = math.acos((R + el) / (R + h))
    if eta >= geom(h, el, hi)[0]:
        return hi
    lo = 0.0
    for _ in range(100):
        x = (lo + hi) / 2
        if geom(h, el, x)[0] < eta:
            lo = x
        else:
            hi = x
    return (lo + hi) / 2


def ok(a, b, tol, what, **kw):
    require(isinstance(a, (int, float)) and abs(a - b) <= tol, "%s: got %r expected %r" % (what, a, b), sig=what, **kw)


def check(c, ctx):
    k = c["k"]
    if k == "view":
        h = c["h"]
        for el in c["els"]:
            hor = math.acos((R + el) / (R + h))
            pts = [hor * j / (c["n"] - 1) for j in range(c["n"])]
            prev = None
            for j, lam in enumerate(pts):
                edge = j >= c["n"] - 1
                eta, eps = geom(h, el, lam)
                sw, fr, ee = 2 * (R + el) * lam, math.degrees(2 * eta), math.degrees(eps)
                kw = dict(altitude=h, elevation=el, central_angle=math.degrees(lam))
                ctx.state(("v", h, el, j))
                ok(U.swath_width_to_field_of_regard(h, sw, el), fr, 1e-8, "swath width to field of regard", **kw)
                ok(U.field_of_regard_to_swath_width(h, fr, el), sw, 1.0 if edge else 1e-2 + sw * 1e-7, "field of regard to swath width", **kw)
                ok(U.compute_min_elevation_angle(h, fr, el), ee, 1e-4 if edge else 1e-6, "field of regard to minimum elevation angle", **kw)
                ok(U.compute_field_of_regard(h, ee, el), fr, 1e-8, "minimum elevation angle to field of regard", **kw)
                # opposite conversions, on the library's own values
                ok(U.field_of_regard_to_swath_width(h, U.swath_width_to_field_of_regard(h, sw, el), el), sw,
                   1.0 if edge else 1e-2 + sw * 1e-7, "swath width round trip", **kw)
                ok(U.compute_min_elevation_angle(h, U.compute_field_of_regard(h, ee, el), el), ee, 1e-4 if edge else 1e-6, "elevation angle round trip", **kw)
                if el == 0:
                    ok(U.swath_width_to_field_of_regard(h, sw), fr, 1e-8, "swath width to field of regard (default elevation)", **kw)
                    ok(U.field_of_regard_to_swath_width(h, fr), sw, 1.0 if edge else 1e-2 + sw * 1e-7, "field of regard to swath width (default elevation)", **kw)
                ctx.step(6)
                # off-nadir views
                for i in range(1, c["m"] + 1):
                    half = min(hor, math.pi / 2) * i / (c["m"] + 1) / 2
                    if lam + half > hor or edge:
                        continue
                    want = math.degrees(geom(h, el, lam + half)[0] - geom(h, el, lam - half)[0])
                    ok(U.swath_width_to_field_of_view(h, 2 * half * (R + el), math.degrees(eta), el), want, 1e-6, "swath width to field of view", half_angle=math.degrees(half), **kw)
                    if j == 0:
                        ok(U.swath_width_to_field_of_view(h, 2 * half * (R + el), 0, el),
                           U.swath_width_to_field_of_regard(h, 2 * half * (R + el), el), 1e-8, "field of view at nadir", **kw)
                        if el == 0:
                            ok(U.swath_width_to_field_of_view(h, 2 * half * R), want, 1e-6, "swath width to field of view (defaults)", **kw)
                    ctx.step()
                cur = (U.field_of_regard_to_swath_width(h, fr, el), U.compute_min_elevation_angle(h, fr, el))
                if prev is not None:
                    require(cur[0] > prev[0] and cur[1] < prev[1], "wider field of regard gives wider swath and lower elevation", **kw)
                prev = cur
                ctx.trace((h, el, j))
        for e in range(0, 91):
            for g in (e, e + 0.5):
                if g > 90:
                    continue
                v = math.sqrt(MU / (R + h))
                ok(U.compute_max_access_time(h, float(g)), (R + h) * math.radians(180 - 2 * g) / v, 1e-6 + 1e-9 * h, "maximum access time", altitude=h, angle=g)
                # never shorter than an overhead pass above a point of a non-rotating sphere
                lam = lam_of_eta(h, 0.0, math.asin(min(1.0, R / (R + h) * math.cos(math.radians(g)))))
                require(U.compute_max_access_time(h, float(g)) >= 2 * lam * (R + h) / v - 1e-3, "maximum access time covers an overhead pass", altitude=h, angle=g)
                ctx.state(("e", h, g))
                ctx.step(2)
    elif k == "for":
        h = c["h"]
        fs = sorted(set([0.01, 0.1, 1, 90, 179.999, 180, 180.0, 180.001, 181.0, 270, 359.99, 360, 360.0] +
                        [360.0 * (j + 1) / c["n"] for j in range(c["n"])]))
        prev = None
        for f in fs:
            for el in (0, 1500.0):
                rho = math.asin((R + el) / (R + h))
                eta = min(math.radians(f) / 2, rho)
                lam = lam_of_eta(h, el, eta)
                near = abs(math.radians(f) / 2 - rho) < 1e-4
                want = 2 * (R + el) * lam
                got = U.field_of_regard_to_swath_width(h, f, el)
                ok(got, want, 2e3 if near else 1.0, "swath width of a field of regard", altitude=h, field=f, elevation=el)
                we = 0.0 if eta >= rho else math.degrees(geom(h, el, lam)[1])
                ge = U.compute_min_elevation_angle(h, f, el)
                ok(ge, we, 0.1 if near else 1e-4, "minimum elevation of a field of regard", altitude=h, field=f, elevation=el)
                ctx.state(("f", h, f, el))
                ctx.step(2)
                if el == 0:
                    cur = (got, ge)
                    if prev is not None:
                        require(cur[0] >= prev[0] - 1e-6 and cur[1] <= prev[1] + 1e-9, "swath/elevation not monotone in the field of regard", altitude=h, field=f)
                    prev = cur
            for ins in (Instrument(field_of_regard=f), PointedInstrument(field_of_regard=f, cross_track_field_of_view=10, along_track_field_of_view=20)):
                ok(ins.get_swath_width(h), prev[0], 1e-6, "instrument swath width", altitude=h, field=f)
                ok(ins.get_min_elevation_angle(h), prev[1], 1e-9, "instrument minimum elevation angle", altitude=h, field=f)
            ctx.trace((h, f))
    elif k == "speed":
        h = c["h"]
        T = U.compute_orbit_period(h)
        ok(T, 2 * math.pi * math.sqrt((R + h) ** 3 / MU), 1e-6 * T, "orbit period", altitude=h)
        o = CircularOrbit(altitude=h, inclination=50)
        ok(o.get_orbit_period().total_seconds(), T, 1e-3, "orbit period of a circular orbit", altitude=h)
        n = 2 * math.pi / (2 * math.pi * math.sqrt((R + h) ** 3 / MU))
        prev = None
        for i in range(0, 181, c["di"]):
            for inc in (i, float(i)):
                want = R * (n - 2 * math.pi / SID * math.cos(math.radians(inc)))
                got = U.compute_ground_velocity(h, inc)
                ok(got, want, 1e-6, "ground velocity", altitude=h, inclination=inc)
                ctx.state(("s", h, i))
                ctx.step()
                if abs(want) < 1e-3:
                    continue
                for d in (1.0, 1000, 185000.0, 3e6):
                    t = U.along_track_distance_to_access_time(h, inc, d)
                    ok(t, d / want, 1e-9 + abs(d / want) * 1e-9, "along-track distance to access time", altitude=h, inclination=inc, distance=d)
                    ok(U.access_time_to_along_track_distance(h, inc, t), d, 1e-9 + d * 1e-9, "access time to along-track distance", altitude=h, inclination=inc, distance=d)
                    ok(U.access_time_to_along_track_distance(h, inc, 60.0), want * 60, 1e-5, "along-track distance in one minute", altitude=h, inclination=inc)
                    ctx.step(3)
            if prev is not None:
                require(got > prev, "ground velocity increases with inclination", altitude=h, inclination=i)
            prev = got
            ctx.trace((h, i))
    else:
        n = c["n"]
        prev = None
        for j in range(n + 1):
            d = 1000.0 * (2.0e4) ** (j / float(n))
            if d > 2.0e7:
                continue
            got = U.compute_number_samples(d)
            want = AREA / (2 * math.pi * R * R * 2 * math.sin(d / R / 4) ** 2)
            require(isinstance(got, int) and abs(got - math.floor(want)) <= 1 + want * 1e-6, "number of samples: got %r expected %r" % (got, want), distance=d)
            if prev is not None:
                require(got <= prev, "number of samples decreases with the distance", distance=d)
            prev = got
            ctx.state(("n", d))
            ctx.step()
            ctx.trace(got)
