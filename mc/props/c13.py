"""C13: with several element sets, the one nearest in time is always used.

Every chronological choice of one to six epochs from a lattice (close pairs,
wide gaps, equal epochs) x every query time / period boundary on a lattice that
contains all epochs, all midpoints, their neighbours and outside times.
"""
import itertools
from datetime import datetime, timedelta, timezone

import numpy as np
from pydantic import ValidationError
from skyfield.api import EarthSatellite, load, wgs84

from tatc import config
from tatc.analysis import collect_observations, collect_orbit_track
from tatc.schemas import CircularOrbit, Instrument, KeplerianOrbit, Point, Satellite, TwoLineElements
from mc import windows
from mc.core import Violation, require
from mc.common import T0

BOUNDS = {
    "quick": "all chronological tuples of 1-6 epochs over a lattice of 6 (63 distinct + equal-epoch ones); all query times from epochs, midpoints, +-1 s, +-1 h, outside; all boundary pairs; observation windows on 13 selected sets x 3 places x all boundary pairs of 6",
    "thorough": "lattice of 7 epochs; windows on every set",
}
ASSUMPTIONS = ["exactly equidistant times may use either neighbour", "passes in progress at a change of element set are don't-care"]
CHUNK = 1
TS = load.timescale()
LAT = [0.0, 5.0, 13.0, 24.0, 25.0, 60.0, 72.5]  # hours


def tle_at(h, k):
    o = KeplerianOrbit(altitude=600000 + 1500 * k, inclination=55.0 + 0.5 * k, right_ascension_ascending_node=40.0 + 4.0 * k,
                       eccentricity=0.001, perigee_argument=30.0, true_anomaly=(17.0 * h + 6 * k) % 360, epoch=T0 + timedelta(hours=h))
    return o.to_tle().tle


def cases(tier):
    lat = LAT[:6] if tier == "quick" else LAT
    sets = [c for k in range(1, 7) for c in itertools.combinations(lat, k)]
    sets += [(0.0, 0.0), (0.0, 13.0, 13.0), (5.0, 5.0, 24.0)]
    out = [{"k": "sel", "e": list(s)} for s in sets]
    if tier == "quick":
        ws = [(0.0, 5.0), (0.0, 24.0), (0.0, 5.0, 13.0), (5.0, 13.0, 24.0), (24.0, 25.0), (0.0, 13.0, 24.0, 25.0),
              (0.0, 5.0, 25.0), (13.0, 60.0), (0.0, 5.0, 13.0, 24.0), (5.0, 24.0, 60.0), (13.0,), (0.0, 60.0), (0.0, 5.0, 13.0, 24.0, 25.0, 60.0)]
    else:
        ws = [s for s in sets if len(set(s)) == len(s)]
    for s in ws:
        for p in (("a", 41.0, -74.0), ("b", -3.0, 100.0), ("never", 89.0, 0.0)):
            out.append({"k": "win", "e": list(s), "p": list(p)})
    out.append({"k": "order"})
    return out


def build(eps):
    lines = []
    for k, h in enumerate(eps):
        lines += tle_at(h, k)
    return lines


def nearest(epochs, t):
    d = [abs((t - e).total_seconds()) for e in epochs]
    m = min(d)
    return {i for i, x in enumerate(d) if x - m <= 1e-4}


def query_times(epochs):
    q = set()
    for e in epochs:
        q |= {e, e + timedelta(seconds=1), e - timedelta(seconds=1), e + timedelta(hours=1)}
    for a, b in zip(epochs, epochs[1:]):
        m = a + (b - a) / 2
        q |= {m, m - timedelta(seconds=1), m + timedelta(seconds=1), a + (b - a) / 4, a + 3 * (b - a) / 4}
    for a, b in itertools.combinations(epochs, 2):
        q.add(a + (b - a) / 2 + timedelta(seconds=30))
    q |= {epochs[0] - timedelta(hours=30), epochs[-1] + timedelta(hours=50)}
    return sorted(q)


def check_sel(case, ctx):
    config.rc.repeat_cycle_for_orbit_track = False
    lines = build(case["e"])
    orb = TwoLineElements(tle=lines)
    refs = [EarthSatellite(lines[i], lines[i + 1], None, TS) for i in range(0, len(lines), 2)]
    epochs = [r.epoch.utc_datetime() for r in refs]
    q = query_times(epochs)
    require(orb.get_tle_count() == len(refs), "wrong number of element sets", "count")
    for i in range(len(refs)):
        require(abs((orb.get_epoch(i) - epochs[i]).total_seconds()) < 1e-3, "epoch of the element set differs", "epoch")
        require(abs(orb.get_inclination(i) - (55 + .5 * i)) < 1e-4, "accessor ignores the element-set index", "index")
    # scalar queries, on a fresh and on a used object
    for obj in (TwoLineElements(tle=lines), orb):
        for t in q:
            i = obj.get_closest_tle_index(t)
            ok = nearest(epochs, t)
            if len(refs) > 1:
                require(i in ok, "the selected element set is not the nearest in time", "nearest", t=str(t), got=i, exp=sorted(ok), epochs=[str(e) for e in epochs])
            else:
                require(i == 0, "the selected element set does not exist", "nearest")
            ctx.step()
    # list queries: whole list, reversed, every sub-list of neighbours
    for qq in (q, q[::-1], q[:1], q[1:4], [q[0], q[-1], q[0]]):
        ii = orb.get_closest_tle_index(qq)
        require(len(ii) == len(qq), "list query has the wrong length", "length")
        for i, t in zip(ii, qq):
            require(i in nearest(epochs, t), "list query does not select the nearest element set", "nearest-list", t=str(t), got=i)
        tr = orb.get_orbit_track(qq)
        pos, vel = np.asarray(tr.position.km), np.asarray(tr.velocity.km_per_s)
        require(pos.shape == (3, len(qq)), "track has the wrong shape", "shape", got=pos.shape)
        for k, t in enumerate(qq):
            tt = TS.from_datetime(t)
            require(abs((tr.t[k].utc_datetime() - t).total_seconds()) < 1e-3, "track times differ", "time")
            ok = nearest(epochs, t)
            d = min(np.abs(refs[i].at(tt).position.km - pos[:, k]).max() for i in ok)
            dv = min(np.abs(refs[i].at(tt).velocity.km_per_s - vel[:, k]).max() for i in ok)
            require(d < 1e-3 and dv < 1e-6, "position does not come from the nearest element set", "track-list", t=str(t), d=d, dv=dv)
            ctx.step()
    for t in q:
        tr = orb.get_orbit_track(t)
        tt = TS.from_datetime(t)
        d = min(np.abs(refs[i].at(tt).position.km - tr.position.km).max() for i in nearest(epochs, t))
        require(d < 1e-3, "scalar position does not come from the nearest element set", "track", t=str(t), d=d)
        ctx.step()
    sat = Satellite(name="S", orbit=orb, instruments=[Instrument(name="I")])
    gdf = collect_orbit_track(sat, q)
    for t, g in zip(q, gdf.geometry):
        tt = TS.from_datetime(t)
        best = 1e9
        for i in nearest(epochs, t):
            s = wgs84.subpoint_of(refs[i].at(tt))
            dl = abs((s.longitude.degrees - g.x + 180) % 360 - 180) * np.cos(np.radians(g.y))
            best = min(best, max(abs(s.latitude.degrees - g.y), dl))
        require(best < 1e-4, "collected track does not use the nearest element set", "collect", t=str(t), d=best)
        ctx.step()
    # partitions: every ordered pair of boundaries
    for a, b in itertools.combinations(q, 2):
        ts, idx = orb.partition_by_tle_index(a, b)
        require(len(ts) == len(idx) and ts[0] == a and ts[-1] == b, "partition does not run from start to end", "partition-ends", got=[str(x) for x in ts])
        require(all(x < y for x, y in zip(ts, ts[1:])), "partition times are not increasing", "partition-order")
        for k in range(len(ts) - 1):
            s, e = ts[k], ts[k + 1]
            probes = [s + (e - s) * f for f in (0.001, 0.3, 0.5, 0.9, 0.999)] + [x for x in q if s < x < e]
            for x in probes:
                ok = nearest(epochs, x)
                require(idx[k] in ok, "partition names an element set that is not the nearest", "partition",
                        period=[str(a), str(b)], part=[str(s), str(e)], at=str(x), got=idx[k], exp=sorted(ok))
        require(idx[-1] in nearest(epochs, b), "partition ends with the wrong element set", "partition-last")
        ctx.step()
        ctx.state([case["e"], str(a), str(b)])
    ctx.trace([case["e"], len(q)], {"epochs": case["e"], "queries": len(q)})


def check_win(case, ctx):
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    eps = case["e"]
    lines = build(eps)
    orb = TwoLineElements(tle=lines)
    _, la, lo = case["p"]
    lo_h, hi_h = eps[0] - 5, eps[-1] + 8
    base = T0
    sk = windows.Sky(lines, la, lo, 0.0, base).sample(lo_h * 3600 - 7200, hi_h * 3600 + 7200, 60)
    eph = [(e - base).total_seconds() for e in sk.epochs]
    mids = [(a + b) / 2 for a, b in zip(eph, eph[1:])]
    f = 130.0
    sat = Satellite(name="S", orbit=orb, instruments=[Instrument(name="I", field_of_regard=f)])
    pt = Point(id=1, latitude=la, longitude=lo)
    ints0 = {}
    bs = sorted(set([lo_h * 3600.0, hi_h * 3600.0] + [m - 1500.0 for m in mids] + [m + 5000.0 for m in mids]))
    if len(bs) > 6:
        bs = bs[:3] + bs[-3:]
    todo = list(itertools.combinations(bs, 2))
    if "only" in case:
        todo = [tuple(case["only"])]
    for s, e in todo:
        me = windows.min_elevation(sk.height(s), f)
        df = collect_observations(pt, sat, base + timedelta(seconds=s), base + timedelta(seconds=e))
        got = [((a.to_pydatetime() - base).total_seconds(), (b.to_pydatetime() - base).total_seconds()) for a, b in zip(df.start, df.end)]
        k = round(me, 6)
        if k not in ints0:
            ii = sk.intervals(me)
            for i in ii:
                if any(i[0] - 90 <= m <= i[1] + 90 for m in mids):
                    i[3] = True
            ints0[k] = ii
        exp = windows.clip(ints0[k], s, e)
        near = sk.near_misses(me) + [(m - 90, m + 90) for m in mids]
        err, n = windows.compare(got, exp, near)
        if err:
            raise Violation(err, "windows", dict(case, only=[s, e]))
        ctx.skip(n)
        ctx.step(len(exp) + 1)
        ctx.state([case["e"], case["p"], s, e])
        for _, r in df.iterrows():
            c = (r.epoch.to_pydatetime() - base).total_seconds()
            if any(abs(c - m) < 100 for m in mids):
                continue
            a, z = sk.altaz([c])
            if abs(r.sat_alt - a[0]) > 0.05:
                raise Violation("angle at the epoch differs: %r instead of %r" % (r.sat_alt, a[0]), "angle", dict(case, only=[s, e]))
        # raw events: rise and set events must be exactly the crossings
        ts, ev = orb.get_observation_events(pt, base + timedelta(seconds=s), base + timedelta(seconds=e), me)
        cross = [((t.utc_datetime() - base).total_seconds(), int(v)) for t, v in zip(ts, ev)]
        for i in exp:
            if i[3]:
                continue
            for x, v in ((i[0], 0), (i[1], 2)):
                if s + 2 < x < e - 2 and not any(abs(x - y) < 1.5 and w == v for y, w in cross):
                    raise Violation("crossing at %.1f (%d) is missing from the events %r" % (x, v, cross), "events", dict(case, only=[s, e]))
        if [x for x, _ in cross] != sorted(x for x, _ in cross):
            raise Violation("events are not in time order", "events-order", dict(case, only=[s, e]))
    ctx.trace([case["e"], case["p"][0], len(got)], {"case": case, "last_windows": got})


def check_order(case, ctx):
    for n in (2, 3):
        for eps in itertools.combinations([0.0, 5.0, 24.0, 60.0], n):
            blocks = [tle_at(h, k) for k, h in enumerate(eps)]
            for perm in itertools.permutations(range(n)):
                lines = [l for i in perm for l in blocks[i]]
                good = list(perm) == sorted(perm)
                try:
                    TwoLineElements(tle=lines)
                    ok = True
                except ValidationError:
                    ok = False
                require(ok == good, "chronological order is not enforced", "order", perm=perm)
                ctx.step()
                ctx.state([eps, perm])
                ctx.trace(ok)


def check(case, ctx):
    {"sel": check_sel, "win": check_win, "order": check_order}[case["k"]](case, ctx)
