"""C06: downlinks are station passes; latency uses the first one afterwards.

Part A enumerates every multiset of up to three downlinks of two satellites on
a time lattice against every observation interval.  Part B explores, for
orbit x station groups, all ordered pairs of period boundaries over the phases
of consecutive passes.
"""
import itertools
from datetime import timedelta, timezone

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely.geometry import Point as SPoint

from tatc import config
from tatc.analysis import collect_downlinks, compute_latencies
from tatc.schemas import GroundStation, Instrument, Satellite
from mc import orbits, windows
from mc.core import Violation, require
from mc.common import T0, dt, secs, tds, close, frame_fingerprint, same_point

BOUNDS = {
    "quick": "A: all multisets of <=3 downlinks over 10 lattice intervals x 2 satellites, each against all 20 observations at once (row orders and lattice steps of 0.1 s, 10 s, 3.5 days rotated), and all single/paired observations against <=2 downlinks; B: 8 orbits x 5 station groups x all boundary pairs over 2 passes (minimum access times from 0.5 s to more than a day, and those of the pass itself, exactly and exceeded by a microsecond)",
    "thorough": "A: lattice of 15 intervals, 3 downlinks; B: 9 orbits x 9 station groups, 3 passes",
}
ASSUMPTIONS = ["downlinks with equal start are interchangeable", "boundaries compared within 1 s, grazing passes (0.05 deg) don't-care"]
CHUNK = 24
SATS = ("A", "B")
SCALES = (1, 30000, 0.01)  # lattice steps of 10 s, 3.5 days, 0.1 s


def intervals(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


GROUPS = {
    "one0": [("eq", 0.0, 0)], "one25": [("mid", 25.0, 0)], "acc": [("high", 5.0, 300)],
    "three": [("mid", 10.0, 0), ("eq", 0.0, 200), ("high", 20.0, 0)],
    "two": [("anti", 0.0, 0), ("mtn", 5.0, 0)],
    "never": [("sp", 89.0, 0), ("eq", 5.0, 1000000)],
    "day": [("low", 0.0, 90000), ("low", 0.0, 86400.5), ("low", 3.0, 0.5)],
    "sp": [("sp", 0.0, 0)], "dup": [("mid", 5.0, 0), ("mid", 30.0, 0)], "m60": [("mtn", 60.0, 0), ("anti", 10.0, 400)],
}


def cases(tier):
    n = 4 if tier == "quick" else 5
    iv = intervals(n)
    lab = [(s, k) for s in range(2) for k in range(len(iv))]
    out = []
    for k in range(0, 4):
        ms = list(itertools.combinations_with_replacement(range(len(lab)), k))
        for i in range(0, len(ms), 10):
            out.append({"kind": "all", "n": n, "ms": [list(m) for m in ms[i:i + 10]]})
    for o in range(len(lab)):
        out.append({"kind": "pair", "n": n, "o": o})
    orbs = ["iss", "leo98", "retro", "polar", "ecc", "geo", "heo", "meo"] + ([] if tier == "quick" else ["leo30", "equat"])
    groups = ["one0", "one25", "acc", "three", "two", "never"] if tier == "quick" else [g for g in GROUPS if g != "day"]
    for o in ("geo", "meo"):
        out.append({"kind": "dl", "o": o, "g": "day", "np": 2})
    for o in orbs:
        for g in groups:
            out.append({"kind": "dl", "o": o, "g": g, "np": 2 if tier == "quick" else 3})
    # the groups are expensive: put them first
    out.sort(key=lambda c: c["kind"] != "dl")
    return out


# ---- part A ---------------------------------------------------------------
def frame_obs(rows, order, u=1):
    recs = []
    for pid, (s, (a, b)) in enumerate(rows):
        recs.append({"point_id": 100 + pid, "geometry": SPoint(10.0 + pid, -5.0 - pid / 2, 0), "satellite": SATS[s],
                     "instrument": "I%d" % (pid % 3), "start": dt(10 * a * u), "end": dt(10 * b * u), "epoch": dt(5 * (a + b) * u),
                     "sat_alt": 10.0 + pid, "sat_az": 100.0 + pid})
    recs = [recs[i] for i in order]
    return gpd.GeoDataFrame(recs, crs="EPSG:4326", index=[7 * i % 101 for i in range(len(recs))])


def frame_dl(rows, order, u=1):
    recs = []
    for j, (s, (a, b)) in enumerate(rows):
        recs.append({"station": "G%d" % j, "geometry": SPoint(1, j, 0), "satellite": SATS[s],
                     "start": dt(10 * a * u), "end": dt(10 * b * u), "epoch": dt(5 * (a + b) * u)})
    return gpd.GeoDataFrame([recs[i] for i in order], crs="EPSG:4326")


def check_latency(obs_rows, dl_rows, oo, do, ctx, u=1):
    obs, dl = frame_obs(obs_rows, oo, u), frame_dl(dl_rows, do, u)
    fp = (frame_fingerprint(obs), frame_fingerprint(dl))
    df = compute_latencies(obs, dl)
    require(fp == (frame_fingerprint(obs), frame_fingerprint(dl)), "inputs were modified", "mutated")
    require(len(df) == len(obs_rows), "not one row per observation", "rows", got=len(df), exp=len(obs_rows))
    seen = set()
    last = None
    for _, r in df.iterrows():
        pid = int(r.point_id) - 100
        require(pid not in seen, "observation repeated", "rows")
        seen.add(pid)
        s, (a, b) = obs_rows[pid]
        t = secs(r.observed)
        require(close(t, 5 * u * (a + b)), "observed is not the observation epoch", "observed", got=t, exp=5 * u * (a + b))
        require(last is None or t >= last - 1e-9, "rows not in order of observation time", "order")
        last = t
        require(r.satellite == SATS[s] and r.instrument == "I%d" % (pid % 3) and close(r.sat_alt, 10.0 + pid)
                and close(r.sat_az, 100.0 + pid) and same_point(r.geometry, 10.0 + pid, -5.0 - pid / 2),
                "row attributes belong to another observation", "labels")
        cand = [(x, y, j) for j, (q, (x, y)) in enumerate(dl_rows) if q == s and x >= b]
        if not cand:
            none = (r.station is None or (not isinstance(r.station, str) and pd.isna(r.station)))
            require(none and secs(r.downlinked) is None and tds(r.latency) is None,
                    "latency without a later downlink", "none", got=[r.station, str(r.downlinked), str(r.latency)])
            ctx.step()
            continue
        first = min(c[0] for c in cand)
        ok = False
        for x, y, j in cand:
            if x == first and r.station == "G%d" % j:
                ok = close(secs(r.downlinked), 5 * u * (x + y)) and close(tds(r.latency), 5 * u * (x + y) - 5 * u * (a + b))
        require(ok, "latency does not use the first downlink after the observation", "latency",
                obs=(SATS[s], 10 * u * a, 10 * u * b), downlinks=[(SATS[q], 10 * u * x, 10 * u * y) for q, (x, y) in dl_rows],
                got=[r.station, secs(r.downlinked), tds(r.latency)])
        ctx.step()
    ctx.state(["lat", u, sorted(map(str, obs_rows)) if len(obs_rows) < 3 else len(obs_rows), sorted(map(str, dl_rows))])
    ctx.trace([[str(x) for x in df.latency]], {"obs": obs_rows[:3], "downlinks": dl_rows, "latency": [str(x) for x in df.latency][:3]})


def check_all(case, ctx):
    iv = intervals(case["n"])
    lab = [(s, iv[k]) for s in range(2) for k in range(len(iv))]
    n = len(lab)
    for q, ms in enumerate(case["ms"]):
        dls = [lab[i] for i in ms]
        if not dls:
            df = compute_latencies(frame_obs(lab, range(n)), frame_dl([lab[0]], [0]).iloc[:0])
            require(len(df) == 0, "result without downlinks is not empty", "empty")
            df = compute_latencies(frame_obs(lab, range(n)).iloc[:0], frame_dl([lab[0]], [0]))
            require(len(df) == 0, "result without observations is not empty", "empty")
            continue
        step = (1, 3, 7, 11, 13)[sum(ms) % 5]
        while np.gcd(step, n) != 1:
            step += 1
        oo = [(i * step + sum(ms)) % n for i in range(n)]
        do = list(range(len(dls)))[:: -1 if sum(ms) % 2 else 1]
        check_latency(lab, dls, oo, do, ctx, SCALES[(sum(ms) + q) % 3])


def check_pair(case, ctx):
    iv = intervals(case["n"])
    lab = [(s, iv[k]) for s in range(2) for k in range(len(iv))]
    a = lab[case["o"]]
    # one observation against every set of up to two downlinks of a thinner menu
    few = [l for l in lab if l[1][0] != l[1][1]]
    for d in few:
        for u in SCALES:
            check_latency([a], [d], [0], [0], ctx, u)
    for d, e in itertools.combinations(few, 2):
        if (few.index(d) + few.index(e) + case["o"]) % 2 == 0:
            check_latency([a], [d, e], [0], [1, 0], ctx, SCALES[(few.index(d) + case["o"]) % 3])
    for b in lab[case["o"]:]:
        for d in few[:: 2]:
            check_latency([a, b], [d], [1, 0], [0], ctx)


# ---- part B ---------------------------------------------------------------
OFF = {"heo", "geo", "equat"}


def station(k, spec):
    p, el, acc = spec
    la, lo, h = orbits.PLACES[p]
    return GroundStation(name="St %d" % k, latitude=la, longitude=lo, elevation=h, min_elevation_angle=el,
                         min_access_time=timedelta(seconds=acc))


def check_dl(case, ctx):
    o = case["o"]
    config.rc.repeat_cycle_for_orbit_track = o not in OFF
    config.rc.repeat_cycle_for_observation_events = o not in OFF
    specs = GROUPS[case["g"]]
    base = orbits.base_time(o)
    orb = orbits.orbit(o)
    span = 2.2 * 86400
    skies, ints = [], []
    for p, el, acc in specs:
        sk = windows.Sky(orb.to_tle().tle, *orbits.PLACES[p], base).sample(-7200, span, 60)
        skies.append(sk)
        ints.append(sk.intervals(el))
    bs = set()
    for sk, iv in zip(skies, ints):
        ps = [i for i in iv if not i[3] and i[0] > sk.x[0] + 60 and i[1] < sk.x[-1] - 60]
        ps = ps[:case["np"]] if len(specs) == 1 else ps[:1]
        for s, e, _, _ in ps:
            bs |= {s - 40, s + 0.35 * (e - s), s + 0.8 * (e - s), e + 40}
    if not bs:
        bs = {0.0, 1800.0, 5400.0, 20000.0}
    bs |= {min(bs) - 2000.0, max(bs) + 9000.0}
    bs = sorted(round(x, 3) for x in bs if skies[0].x[0] + 10 < x < span - 10)
    sat = Satellite(name="Sat " + o, orbit=orb, instruments=[Instrument(name="any")])
    pairs = list(itertools.combinations(bs, 2))
    if "only" in case:
        pairs = [tuple(case["only"])]
    for k, (s, e) in enumerate(pairs):
        perm = list(itertools.permutations(range(len(specs))))[k % len(list(itertools.permutations(range(len(specs)))))]
        sts = [station(j, specs[j]) for j in perm]
        arg = sts[0] if len(sts) == 1 and k % 2 else sts
        zone = timezone(timedelta(hours=(0, 9, -3)[k % 3]))
        df = collect_downlinks(arg, sat, (base + timedelta(seconds=s)).astimezone(zone), (base + timedelta(seconds=e)).astimezone(timezone(timedelta(hours=(0, 9, -3, 5.5)[k // 3 % 4]))))
        sec = lambda t: (t.to_pydatetime() - base).total_seconds()
        starts = [sec(t) for t in df.start]
        try:
            require(starts == sorted(starts), "downlinks are not ordered by start", "order")
            require(list(df.index) == list(range(len(df))), "index is not consecutive", "index")
            got = {j: [] for j in range(len(specs))}
            for _, r in df.iterrows():
                j = [i for i in range(len(specs)) if r.station == "St %d" % i]
                require(len(j) == 1 and r.satellite == sat.name, "row is mislabelled", "labels")
                la, lo, h = orbits.PLACES[specs[j[0]][0]]
                require(same_point(r.geometry, lo, la, h), "row geometry is not the station", "geometry")
                a, b, c = sec(r.start), sec(r.end), sec(r.epoch)
                require(abs((a + b) / 2 - c) < 1e-3, "epoch is not the middle of the pass", "epoch")
                got[j[0]].append((a, b))
            for j, (p, el, acc) in enumerate(specs):
                exp = windows.clip(ints[j], s, e)
                err, n = windows.compare(got[j], exp, skies[j].near_misses(el), min_len=acc)
                if err:
                    from mc.props.c01 import lost_crossing
                    if lost_crossing(skies[j], s, e, el, got[j], exp, acc, skies[j].near_misses(el), None):
                        ctx.finding("event-search-lost-crossing", err, dict(case, only=[s, e]))
                        continue
                    raise Violation(err, "windows")
                ctx.skip(n)
                ctx.step()
        except Violation as v:
            raise Violation(str(v), v.sig, dict(case, only=[s, e]))
        if len(df) and k % 4 == 0:
            exact(case, ctx, specs, sat, df, base, s, e)
        ctx.state([o, case["g"], round(s), round(e)])
        ctx.trace([[round(x) for w in got.values() for y in w for x in y]], {"case": case, "period": [s, e], "windows": {str(a): b for a, b in got.items()}})


def exact(case, ctx, specs, sat, df, base, s, e):
    """A pass that lasts exactly the minimum access time counts; one that is a microsecond shorter does not."""
    for _, r in itertools.islice(df.iterrows(), 2):
        j = int(r.station[3:])
        length = (r.end - r.start).to_pytimedelta()
        for extra in (0, 1):
            st = station(j, specs[j]).model_copy(update={"min_access_time": length + timedelta(microseconds=extra)})
            g = collect_downlinks(st, sat, base + timedelta(seconds=s), base + timedelta(seconds=e))
            has = any(a == r.start and b == r.end for a, b in zip(g.start, g.end))
            if has != (extra == 0):
                raise Violation("a pass of %s is %s for a minimum access time of %s" % (length, "reported" if has else "missing", st.min_access_time), "min access", dict(case, only=[s, e]))
            ctx.step()


def check(case, ctx):
    {"all": check_all, "pair": check_pair, "dl": check_dl}[case["kind"]](case, ctx)
