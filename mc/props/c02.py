"""C02: pointed instruments only record what their footprint covers.

Reference model: the line of sight from the satellite to the point at the
middle of the pass, expressed by its tangents in the (forward, right, nadir)
frame, is compared with the pointed field of view; between the inscribed and
the circumscribed outline of the view the footprint polygon computed by the
reference geometry of C18 decides.
"""
import itertools
import math
from datetime import timedelta

import numpy as np
from shapely.geometry import Point as SPoint, Polygon
from skyfield.framelib import itrs

from tatc import config
from tatc.analysis import collect_observations
from tatc.schemas import Instrument, Point, PointedInstrument, Satellite
from mc.core import require
from mc.common import dt, secs
from mc.orbits import T0, orbit
from mc.props.c08 import expected, unwrap
from mc.props.c18 import frame, geodetic, meet, sight, tan, vertices

ORBITS = ["leo30", "leo98", "retro", "polar", "ecc"]
FOVS = [(12.0, 12.0), (20.0, 6.0), (5.0, 30.0), (60.0, 44.0), (130.0, 130.0)]
POINTING = [(0, 0), (15, 0), (-15, 0), (0, 12), (0, -12), (25, 10), (-25, 10), (-40, -20), (35, -15), (50, 0)]
# tangent-plane offsets of the observed points in units of the half view, relative to the view centre
OFFS = [(0, 0), (0.8, 0), (-0.8, 0), (0, 0.8), (0, -0.8), (0.75, 0.75), (-0.75, 0.8), (1.15, 0), (-1.2, 0.1), (0.1, 1.15), (-0.1, -1.2), (0.85, -0.85), (1.1, -1.1), (2.5, 0.3), (-0.4, -3.0)]
BOUNDS = {
    "quick": "5 orbits x 8 phases (polar, antimeridian and node crossings among them) x 10 pointings x 5 field-of-view pairs x ellipse/rectangle (half of the product, alternating) x 15 points placed around the view (and mirrored with respect to the track) at 5 elevations (-10900 to 8848 m); every pass of one day over 4 places x 12 instruments; three nested fields of view each",
    "thorough": "full product, 20 phases",
}
CHUNK = 6
VALIDATION = "every enumerated (satellite state, view, point) is run through collect_observations and the presence of the row compared with the reference"
HALF = 20.0


def cases(tier):
    q = tier == "quick"
    for o, f, rect, g in itertools.product(range(len(ORBITS)), range(len(FOVS)), (False, True), range(len(POINTING))):
        n = 8 if q else 20
        for ph in range(n):
            if q and (f + g + ph + int(rect)) % 4:
                continue
            yield {"k": "state", "o": o, "f": f, "rect": rect, "g": g, "ph": ph, "n": n}
    for o, pl in itertools.product(range(len(ORBITS)), range(4)):
        yield {"k": "day", "o": o, "pl": pl}


_O, _T, _P = {}, {}, {}


def orb(i):
    if i not in _O:
        _O[i] = orbit(ORBITS[i]).to_tle()
    return _O[i]


def state(i, t):
    if (i, t) not in _T:
        x, u = orb(i).get_orbit_track(t).frame_xyz_and_velocity(itrs)
        _T[(i, t)] = (x.m, u.m_per_s)
    return _T[(i, t)]


def instr(f, rect, roll, pitch, scale=1.0, **kw):
    return PointedInstrument(name="p", field_of_regard=180, cross_track_field_of_view=min(179.0, f[0] * scale), along_track_field_of_view=min(179.0, f[1] * scale),
                             roll_angle=roll, pitch_angle=pitch, is_rectangular=rect, **kw)


def tangents(x, u, lon, lat, el):
    """(right, forward) tangents of the line of sight to a ground point."""
    from skyfield.api import wgs84
    p = wgs84.latlon(lat, lon, el).itrs_xyz.m
    v, n, b = frame(x, u)
    m = np.array([b, n, v]).T
    k = np.linalg.solve(m, p - x)
    return k[1] / k[0], k[2] / k[0], k[0] > 0


def reference(x, u, ins, lon, lat, el, ctx):
    """True/False: the point is inside the footprint; None: undecided."""
    fov = (ins.cross_track_field_of_view, ins.along_track_field_of_view)
    rect = ins.is_rectangular
    n = config.rc.footprint_points_rectangular_side if rect else config.rc.footprint_points_elliptical
    ring, edge = vertices(x, u, fov, ins.roll_angle, ins.pitch_angle, rect, n, el)
    if edge:
        return None
    uw = unwrap(ring + [ring[0]])
    turn = round((uw[-1][0] - uw[0][0]) / 360.0)
    pl = Polygon(uw)
    if turn == 0 and (not pl.is_valid or pl.bounds[2] - pl.bounds[0] > 300):
        return None
    if turn and any(abs(a[0] - b[0]) > 120 for a, b in zip(uw, uw[1:])):
        return None
    if turn and any(a[0] >= b[0] for a, b in zip(uw, uw[1:])) and any(a[0] <= b[0] for a, b in zip(uw, uw[1:])):
        return None
    reg = expected(ring, None)
    pt = SPoint(lon, lat)
    if reg.boundary.distance(pt) < 1e-5 or abs(lat) > 89.99 or abs(abs(lon) - 180) < 1e-5 or (turn and abs(lon) < 1e-5):
        return None
    inside = reg.contains(pt)
    # independent decision in the tangent plane, for views of the near field
    tr, tf, front = tangents(x, u, lon, lat, el)
    if front and fov[0] <= 60 and fov[1] <= 60 and abs(ins.roll_angle) <= 25 and abs(ins.pitch_angle) <= 15 and not turn:
        a = (tr - tan(ins.roll_angle)) / tan(fov[0] / 2)
        b = (tf - tan(ins.pitch_angle)) / tan(fov[1] / 2)
        r = max(abs(a), abs(b)) if rect else math.hypot(a, b)
        if r < 0.9 or r > 1.1:
            require(inside == (r < 1), "reference models disagree (harness)", sig="harness", r=r)
            ctx.count("tangent-plane decisions")
    return inside


def check(c, ctx):
    globals()["_" + c["k"]](c, ctx)


def _state(c, ctx):
    f, (roll, pitch), rect = FOVS[c["f"]], POINTING[c["g"]], c["rect"]
    tle = orb(c["o"])
    per = 86400.0 / tle.get_mean_motion()
    t = dt(round(per * (c["ph"] + 0.13) / c["n"], 1))
    x, u = state(c["o"], t)
    fr = frame(x, u)
    start, end = t - timedelta(seconds=HALF), t + timedelta(seconds=HALF)
    base = Satellite(name="s", orbit=tle, instruments=[Instrument(name="i", field_of_regard=180)])
    chain = [instr(f, rect, roll, pitch, s) for s in (1.0, 1.5, 2.4)]
    sat = Satellite(name="s", orbit=tle, instruments=list(chain))
    for j, off in enumerate(OFFS):
        el = [0.0, 1500.0, -20.0, -10900.0, 8848.0][(j + c["ph"]) % 5]
        o2 = (off[0] * tan(f[0] / 2), off[1] * tan(f[1] / 2))
        # the view's own side, and the mirrored side for the last ones
        s = -1 if j in (3, 8, 13) else 1
        v, n, b = fr
        ray = b + n * s * (tan(roll) + o2[0]) + v * (tan(pitch) + o2[1])
        pt, hit, disc = meet(x, ray, el)
        if not hit or disc < 1e-4:
            ctx.skip()
            continue
        lon, lat = geodetic(pt)
        lon, lat = round(lon, 4), round(lat, 4)
        gp = Point(id=1, latitude=lat, longitude=lon, elevation=el)
        plain = collect_observations(gp, base, start, end)
        ctx.step()
        if len(plain) != 1 or abs(secs(plain.epoch.iloc[0]) - secs(t)) > 1e-3:
            ctx.skip()
            continue
        ctx.state((c["o"], c["ph"], c["f"], rect, c["g"], j))
        prev = None
        for k, ins in enumerate(chain):
            if k and (j + k) % 2:
                continue
            got = collect_observations(gp, sat, start, end, instrument_index=k)
            ctx.step()
            want = reference(x, u, ins, lon, lat, el, ctx)
            what = {"orbit": ORBITS[c["o"]], "time": str(t), "roll": roll, "pitch": pitch, "rect": rect, "fov": (ins.cross_track_field_of_view, ins.along_track_field_of_view), "point": (lon, lat, el)}
            require(len(got) in (0, 1), "%d rows" % len(got), **what)
            has = len(got) == 1
            if want is None:
                ctx.skip()
            else:
                require(has == want, "the point lies %s the footprint but the pass was %s" % ("inside" if want else "outside", "recorded" if has else "not recorded"), sig="inside" if want else "outside", **what)
                ctx.count("inside" if want else "outside")
            if prev is True and want is not None:
                require(has, "widening the field of view lost the observation", sig="widen", **what)
            prev = has
            if has:
                row, ref = got.iloc[0], plain.iloc[0]
                require(row.start == ref.start and row.end == ref.end and row.epoch == ref.epoch and abs(row.sat_alt - ref.sat_alt) < 1e-9, "the recorded pass differs from the pass of a plain instrument", sig="row", **what)
        ctx.trace((c["o"], c["f"], rect, c["g"], j))


def _day(c, ctx):
    lat, lon, el = [(41.0, -74.0, 0.0), (-17.0, 179.9, 0.0), (83.5, 40.0, 1200.0), (2.0, 20.0, 300.0)][c["pl"]]
    tle = orb(c["o"])
    gp = Point(id=1, latitude=lat, longitude=lon, elevation=el)
    base = Satellite(name="s", orbit=tle, instruments=[Instrument(name="i", field_of_regard=180)])
    end = T0 + timedelta(hours=24)
    plain = collect_observations(gp, base, T0, end)
    ctx.step()
    for j, (f, rect, (roll, pitch)) in enumerate(itertools.product(((130.0, 90.0), (60.0, 20.0), (150.0, 150.0)), (False, True), ((0, 0), (35, 0), (-35, 0), (-20, 8)))):
        if (j + c["pl"]) % 2:
            continue
        ins = instr(f, rect, roll, pitch)
        got = collect_observations(gp, Satellite(name="s", orbit=tle, instruments=[ins]), T0, end)
        ctx.step()
        rows = {round(secs(e), 3) for e in got.epoch}
        for e in plain.epoch:
            t = e.to_pydatetime()
            x, u = state(c["o"], t)
            want = reference(x, u, ins, lon, lat, el, ctx)
            ctx.state((c["o"], c["pl"], j, secs(e)))
            if want is None:
                ctx.skip()
                rows.discard(round(secs(e), 3))
                continue
            has = round(secs(e), 3) in rows
            require(has == want, "pass at %s: the point lies %s the footprint but the pass was %s" % (e, "inside" if want else "outside", "recorded" if has else "not recorded"),
                    sig="day", orbit=ORBITS[c["o"]], point=(lon, lat, el), fov=f, rect=rect, roll=roll, pitch=pitch)
            rows.discard(round(secs(e), 3))
            ctx.count("day inside" if want else "day outside")
        require(not rows, "passes recorded that a plain instrument does not have", sig="extra", rows=sorted(rows))
    ctx.trace(("day", c["o"], c["pl"]))
