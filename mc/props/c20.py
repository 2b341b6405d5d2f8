"""C20: dilution of precision uses exactly the visible satellites.

Reference model: unit vectors from the point (ECEF, at its elevation) to each
satellite rotated to a local east-north-up frame, visibility by elevation
angle, dilution from the explicit inverse of the normal matrix.
"""
import itertools
import math
from datetime import timedelta, timezone

import numpy as np
from skyfield.framelib import itrs

from tatc.analysis import DopMethod, compute_dop
from tatc.schemas import CircularOrbit, Instrument, Point, Satellite, TwoLineElements, WalkerConstellation
from mc.core import require
from mc.common import dt
from mc.orbits import T0, orbit
from mc.props.c18 import A, F

METH = ["gdop", "pdop", "hdop", "vdop", "tdop"]
POINTS = [(40.123456, -75.654321, 0.0), (-12.000377, 179.990127, 4200.25), (78.0, 15.0, 300.0), (-89.5, 0.0, 2800.0), (0.0, 0.0, -50.0)]
MASKS = [0.0, 5.0, 10.0, 25.0, 45.0, -5.0]
MINS = [0, 3, 4, 5, 8, 14]
BOUNDS = {
    "quick": "every subset with at least 3 members of 7 navigation satellites (two more with changing element sets and low orbit), 24- and 56-satellite constellations, in two orders x 5 points x 6 elevation masks x 5 methods x 6 minimum counts (cycled within each subset so that every pair occurs) x 5 time lists (1, 3 and 9 instants, unsorted with repeats and before the epoch, three time zones in one list)",
    "thorough": "full product of subsets, points, masks, minimum counts and methods",
}
CHUNK = 4
VALIDATION = "each enumerated call of compute_dop is compared row by row with the reference value"


def warm():
    sats()


_S = []


def sats():
    if _S:
        return _S
    w = WalkerConstellation(name="G", orbit=CircularOrbit(altitude=20180000, inclination=55.0, epoch=T0), number_satellites=24, number_planes=6, relative_spacing=1, instruments=[Instrument(name="i")])
    m = w.generate_members()
    el = orbit("leo98").to_tle().tle
    later = CircularOrbit(altitude=613500, inclination=97.9, right_ascension_ascending_node=40.4, true_anomaly=120.0, epoch=T0 + timedelta(hours=8)).to_tle().tle
    multi = Satellite(name="multi", orbit=TwoLineElements(tle=list(el) + list(later)), instruments=[Instrument(name="i")])
    _S.extend(m + [multi, Satellite(name="leo", orbit=orbit("retro"), instruments=[Instrument(name="i")])])
    _S.extend(WalkerConstellation(name="H", orbit=CircularOrbit(altitude=23222000, inclination=56.0, right_ascension_ascending_node=11.0, true_anomaly=5.0, epoch=T0), number_satellites=30,
                                  number_planes=3, relative_spacing=1, instruments=[Instrument(name="i")]).generate_members())
    return _S


TIMES = {
    "one": [dt(300)],
    "three": [dt(0), dt(5400), dt(20000)],
    "nine": [dt(4000 * k + 77) for k in range(9)],
    "mixed": [dt(20000), dt(300), dt(300), dt(9000), dt(-4000)],
    "zones": [t.astimezone(timezone(timedelta(hours=h))) for t, h in ((dt(7000), 5.5), (dt(100), -8), (dt(1200), 0))],
}
SUB = [0, 3, 7, 9, 14, 18, 21]


def cases(tier):
    q = tier == "quick"
    for n in range(3, 8):
        for s in itertools.combinations(range(7), n):
            for p in range(len(POINTS)):
                yield {"s": [SUB[i] for i in s], "p": p, "all": not q}
    for p in range(len(POINTS)):
        yield {"s": list(range(24)), "p": p, "all": True}
        yield {"s": list(range(26)), "p": p, "all": True}
        yield {"s": list(range(56)), "p": p, "all": True}
        yield {"s": [24, 0, 4, 9, 13, 17, 22, 25, 2], "p": p, "all": True}
        yield {"s": [5, 24, 25, 11], "p": p, "all": True}


_X = {}


def where(i, key):
    """ECEF positions (m) of a satellite at the listed times."""
    if (i, key) not in _X:
        tr = sats()[i].orbit.to_tle()
        out = []
        for t in TIMES[key]:
            # closest epoch decides, computed here without the code under test
            k = min(range(len(tr.tle) // 2), key=lambda j: abs((epoch(tr.tle[2 * j]) - t).total_seconds()))
            one = TwoLineElements(tle=tr.tle[2 * k:2 * k + 2])
            out.append(one.as_skyfield().at(ts(t)).frame_xyz(itrs).m)
        _X[(i, key)] = out
    return _X[(i, key)]


def epoch(line):
    from datetime import datetime
    y, d = 2000 + int(line[18:20]), float(line[20:32])
    return datetime(y, 1, 1, tzinfo=timezone.utc) + timedelta(days=d - 1)


def ts(t):
    from tatc.constants import timescale
    return timescale.from_datetime(t)


def site(lat, lon, el):
    la, lo = math.radians(lat), math.radians(lon)
    e2 = F * (2 - F)
    n = A / math.sqrt(1 - e2 * math.sin(la) ** 2)
    x = np.array([(n + el) * math.cos(la) * math.cos(lo), (n + el) * math.cos(la) * math.sin(lo), (n * (1 - e2) + el) * math.sin(la)])
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.0])
    return x, east, np.cross(up, east), up


def reference(sel, p, key, mask, mincount):
    """Per time: (dict of the five values or None, ambiguous)"""
    x, e, n, u = site(*POINTS[p])
    out = []
    for k in range(len(TIMES[key])):
        rows, amb = [], False
        for i in sel:
            d = where(i, key)[k] - x
            d = d / np.linalg.norm(d)
            el = math.degrees(math.asin(d @ u))
            amb = amb or abs(el - mask) < 1e-4
            if el >= mask:
                rows.append([d @ e, d @ n, d @ u, 1.0])
        if len(rows) < max(4, mincount):
            out.append((None, amb))
            continue
        h = np.array(rows)
        m = h.T @ h
        c = np.linalg.cond(m)
        q = np.linalg.inv(m)
        h2, v2, t2 = q[0, 0] + q[1, 1], q[2, 2], q[3, 3]
        out.append(({"gdop": math.sqrt(abs(h2 + v2 + t2)), "pdop": math.sqrt(abs(h2 + v2)), "hdop": math.sqrt(abs(h2)), "vdop": math.sqrt(abs(v2)), "tdop": math.sqrt(abs(t2))}, amb or c > 1e9))
    return out


def check(c, ctx):
    sel, p = c["s"], c["p"]
    all_s = sats()
    lat, lon, el = POINTS[p]
    pt = Point(id=3, latitude=lat, longitude=lon, elevation=el)
    opts = list(itertools.product(range(len(MASKS)), MINS))
    if not c["all"]:
        opts = [o for i, o in enumerate(opts) if i % 5 == (sum(sel) + p) % 5]
    for j, (mi, mc) in enumerate(opts):
        key = ["one", "three", "nine", "mixed", "zones"][(j + p) % 5]
        times = TIMES[key]
        ref = reference(sel, p, key, MASKS[mi], mc)
        vals = {}
        for m in METH:
            order = sel if (j + len(m) + METH.index(m)) % 2 else sel[::-1]
            got = compute_dop(list(times), pt, [all_s[i] for i in order], MASKS[mi], DopMethod(m), mc)
            ctx.step()
            what = {"satellites": order, "point": POINTS[p], "mask": MASKS[mi], "min": mc, "method": m}
            require(len(got) == len(times) and [t for t in got.index] == list(times), "one row per time, labelled with it", index=[str(t) for t in got.index][:3], **what)
            for k in range(len(times)):
                g = got.geometry.iloc[k]
                require(abs(g.x - lon) < 1e-9 and abs(g.y - lat) < 1e-9, "row geometry %s" % g.wkt, sig="geometry", **what)
                v, (r, amb) = float(got.dop.iloc[k]), ref[k]
                if amb:
                    ctx.skip()
                    continue
                if r is None:
                    require(math.isnan(v), "defined although too few satellites are visible", sig="too few", value=v, time=str(times[k]), **what)
                else:
                    require(abs(v - r[m]) < 1e-4 * max(1.0, r[m]), "value %r, expected %r" % (v, r[m]), sig="value", time=str(times[k]), **what)
                ctx.state((tuple(sel), p, mi, mc, m, key, k))
            vals[m] = [float(x) for x in got.dop]
        for k in range(len(times)):
            if ref[k][0] is None or ref[k][1]:
                continue
            g, po, h, v, t = [vals[m][k] for m in METH]
            require(abs(g * g - po * po - t * t) < 1e-6 * g * g and abs(po * po - h * h - v * v) < 1e-6 * g * g, "components do not add up", sig="identity", values=[g, po, h, v, t])
        ctx.trace((tuple(sel), p, mi, mc, tuple(r[0] is None for r in ref)))
