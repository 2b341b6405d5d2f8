"""C03: constellation observations are the time-ordered union over members.

Reference model: the multiset union of what every (member satellite,
instrument) pair collects on its own.
"""
import itertools
from collections import Counter
from datetime import timedelta

import pandas as pd

from tatc.analysis import collect_multi_observations, collect_observations
from tatc.schemas import (Instrument, MOGConstellation, Point, PointedInstrument, Satellite, SOCConstellation, TrainConstellation, WalkerConstellation)
from mc.core import require
from mc.common import T0, dt, secs
from mc.orbits import orbit

BOUNDS = {
    "quick": "every list of one or two systems and (without streets of coverage and the long train) every ordered triple with distinct entries from a menu of 9 (single satellites with one or two instruments, plain, pointed, with access-time and lighting requirements; trains of 3 and 13, Walker, mutual-orbit and streets-of-coverage constellations), all 3 points x 2 periods for lists up to two and rotating for triples, with and without solar columns",
    "thorough": "every list of up to three systems (repetitions included) x 3 points x 3 periods",
}
CHUNK = 4
MENU = ["single", "two", "train", "walker", "mog", "soc", "never", "mixed", "long"]
POINTS = [(35.0, 20.0, 0.0), (-3.0, 179.8, 0.0), (81.0, -40.0, 900.0)]
PERIODS = [(0.0, 7000.0), (3000.0, 14500.0), (0.0, 86400.0)]


def wide(n="wide", **k):
    return Instrument(name=n, field_of_regard=150, **k)


def system(name):
    if name == "single":
        return Satellite(name="A", orbit=orbit("leo98"), instruments=[wide()])
    if name == "two":
        return Satellite(name="B", orbit=orbit("leo30"), instruments=[wide("w1"), Instrument(name="w2", field_of_regard=100, min_access_time=timedelta(seconds=20))])
    if name == "train":
        return TrainConstellation(name="T", orbit=orbit("leo98"), instruments=[wide()], number_satellites=3, interval=timedelta(minutes=10), repeat_ground_track=True)
    if name == "walker":
        return WalkerConstellation(name="W", configuration="delta", orbit=orbit("leo98"), instruments=[wide(), wide("dark", req_target_sunlit=False)], number_satellites=4, number_planes=2, relative_spacing=1)
    if name == "mog":
        return MOGConstellation(name="M", orbit=orbit("polar"), instruments=[wide()], number_satellites=2, parallel_axis=60000, transverse_axis=120000)
    if name == "soc":
        return SOCConstellation(name="S", orbit=orbit("meo"), instruments=[Instrument(name="wide", field_of_regard=30)], swath_width=1.4e7, packing_distance=1.0)
    if name == "long":
        return TrainConstellation(name="L", orbit=orbit("leo98"), instruments=[wide()], number_satellites=13, interval=timedelta(minutes=7), repeat_ground_track=False)
    if name == "never":
        return Satellite(name="N", orbit=orbit("equat"), instruments=[Instrument(name="n", field_of_regard=30)])
    return Satellite(name="X", orbit=orbit("retro"), instruments=[
        PointedInstrument(name="p", field_of_regard=150, cross_track_field_of_view=100, along_track_field_of_view=60, roll_angle=20),
        wide("fix", access_time_fixed=True, min_access_time=timedelta(seconds=30)), wide("sun", req_target_sunlit=True), wide("self", req_self_sunlit=True)])


def cases(tier):
    q = tier == "quick"
    n = len(MENU)
    k = 0
    for m in (1, 2, 3):
        for combo in itertools.product(range(n), repeat=m):
            if m == 3 and q and (len(set(combo)) < 3 or 5 in combo or 8 in combo):
                continue
            for p, d in itertools.product(range(3), range(2 if q else 3)):
                k += 1
                if m == 3 and q and k % 6 != sum(combo) % 6:
                    continue
                yield {"l": list(combo), "p": p, "d": d, "solar": (k // 2) % 2 == 0}
    for s, p, d in itertools.product(range(n), range(3), range(2 if q else 3)):
        yield {"l": [s], "p": p, "d": d, "solar": bool(p), "bare": True}
        yield {"l": [s], "p": p, "d": d, "solar": not p, "members": True}


_S, _R = {}, {}


def sysof(i):
    if i not in _S:
        _S[i] = system(MENU[i])
    return _S[i]


def rowkey(r, cols):
    out = []
    for c in cols:
        v = r[c]
        if c == "geometry":
            v = v.wkt
        elif c in ("start", "end", "epoch"):
            v = round(secs(v), 5)
        elif isinstance(v, float):
            v = round(v, 7)
        else:
            v = str(v)
        out.append(v)
    return tuple(out)


COLS = ["point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"]
SOLAR = ["sat_sunlit", "solar_alt", "solar_az", "solar_time"]


def alone(i, p, d, solar):
    """Rows collected by every (member, instrument) pair of one system on its own."""
    key = (i, p, d, solar)
    if key not in _R:
        rows = []
        for sat in sysof(i).generate_members():
            for j in range(len(sat.instruments)):
                g = collect_observations(pt(p), sat, dt(PERIODS[d][0]), dt(PERIODS[d][1]), instrument_index=j, omit_solar=not solar)
                for _, r in g.iterrows():
                    rows.append((secs(r["start"]), rowkey(r, COLS + (SOLAR if solar else []))))
        _R[key] = rows
    return _R[key]


def pt(p):
    la, lo, el = POINTS[p]
    return Point(id=40 + p, latitude=la, longitude=lo, elevation=el)


def check(c, ctx):
    solar = c["solar"]
    start, end = dt(PERIODS[c["d"]][0]), dt(PERIODS[c["d"]][1])
    systems = [sysof(i) for i in c["l"]]
    arg = systems
    if c.get("bare"):
        arg = systems[0]
    if c.get("members"):
        arg = systems[0].generate_members()
    got = collect_multi_observations(pt(c["p"]), arg, start, end, omit_solar=not solar)
    ctx.step()
    want = [r for i in c["l"] for r in alone(i, c["p"], c["d"], solar)]
    cols = COLS + (SOLAR if solar else [])
    what = {"systems": [MENU[i] for i in c["l"]], "point": c["p"], "period": c["d"]}
    require(set(cols) <= set(got.columns), "columns %r" % list(got.columns), **what)
    require(list(got.index) == list(range(len(got))), "index is not consecutive", index=list(got.index)[:10], **what)
    gs = [secs(x) for x in got["start"]]
    require(gs == sorted(gs), "rows are not ordered by start", starts=gs[:10], **what)
    a, b = Counter(rowkey(r, cols) for _, r in got.iterrows()), Counter(k for _, k in want)
    require(a == b, "rows differ from the union over members: %d rows instead of %d; missing %s, extra %s" % (
        len(got), len(want), [x[2:7] for x in (b - a)][:2], [x[2:7] for x in (a - b)][:2]), sig="union", **what)
    ctx.count("rows", len(want))
    ctx.state((tuple(c["l"]), c["p"], c["d"], solar, c.get("bare"), c.get("members")))
    ctx.trace((tuple(sorted(c["l"])), c["p"], c["d"], len(want)))
